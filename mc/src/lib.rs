pub mod api;
pub mod cases;
pub mod compare;
pub mod conform;
pub mod fw;
pub mod model;
pub mod sig;
pub mod p;
