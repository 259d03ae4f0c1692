pub mod fw;
pub mod gen;
pub mod lits;
pub mod refr;
pub mod wire;
pub mod net;
pub mod server;
pub mod steer;
pub mod devs;
pub mod wgen;
pub mod mem;
pub mod points;
