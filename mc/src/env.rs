use crate::{gen, reg::Reg};
use mccore::{model::Model, proto::Proto};

pub struct Env {
    pub m: Model,
    pub reg: Reg,
    pub p: Proto,
    pub version: &'static str,
}
impl Env {
    pub fn load() -> Env {
        let mut m = Model::load(gen::MODEL);
        let p = Proto::new(&m, gen::VERSION);
        p.extend(&mut m);
        Env { m, reg: gen::registry(), p, version: gen::VERSION }
    }
}
