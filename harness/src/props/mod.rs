use crate::rt::{Ctx, Prop, Stream};

#[cfg(feature = "capi")]
mod capi;
mod calib;
#[cfg(feature = "cref")]
mod cref;
mod lockstep;
mod meta;
mod robust;

pub fn all() -> Vec<Prop> {
    let mut v = vec![];
    lockstep::add(&mut v);
    meta::add(&mut v);
    robust::add(&mut v);
    calib::add(&mut v);
    #[cfg(feature = "cref")]
    cref::add(&mut v);
    #[cfg(feature = "capi")]
    capi::add(&mut v);
    v
}

pub fn stream(name: &'static str, quick: u64, thorough: u64, f: fn(&mut Ctx) -> Result<(), String>) -> Stream {
    Stream { name, quick, thorough, f }
}

pub const RULE_LOCKSTEP: &str = "a case is one random sequence of API calls (configuration, audio in random formats, layouts and chunk sizes, reconfiguration, rejected calls) run on the crate and on the reference model; distinct by the hash of its call sequence, non-trivial if it fed audio and values were compared";
