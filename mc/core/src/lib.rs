pub mod ctx;
pub mod explore;
pub mod model;
pub mod proto;
