pub mod c;
pub mod d;
pub mod enc;
pub mod g;
pub mod j2k;
pub mod l;
pub mod m;
pub mod r;
pub mod t;
pub mod util;
