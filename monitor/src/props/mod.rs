//! The properties and their monitors.

mod agree;
mod api;
mod args;
mod cost;
mod diag;
mod display;
mod env;
mod lists;
mod platform;
mod resize;
mod split;
mod sys;
mod ub;
mod usage;

use crate::Prop;

pub fn all() -> Vec<Prop> {
    let mut v = Vec::new();
    v.extend(args::props());
    v.extend(display::props());
    v.extend(lists::props());
    v.extend(split::props());
    v.extend(resize::props());
    v.extend(sys::props());
    v.extend(agree::props());
    v.extend(api::props());
    v.extend(env::props());
    v.extend(diag::props());
    v.extend(cost::props());
    v.extend(usage::props());
    v.extend(ub::props());
    v.extend(platform::props());
    v
}
