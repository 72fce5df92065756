//! Runtime monitors for the ebur128 crate. `vh check <property>` decides one property on the build
//! it was linked with; see /verif/DESIGN.md.
mod alloc;
mod gen;
mod json;
mod model;
mod props;
mod rng;
mod rt;
mod session;
mod twin;

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let env = rt::Env::load();
    let find = |id: &str| props::all().into_iter().find(|p| p.id == id);
    let rc = match a.iter().map(|s| s.as_str()).collect::<Vec<_>>()[..] {
        ["list"] => {
            for p in props::all() {
                println!("{} {}", p.id, p.streams.iter().map(|s| s.name).collect::<Vec<_>>().join(" "));
            }
            0
        }
        ["check", id] => match find(id) {
            Some(p) => rt::check(&p, &env),
            None => 2,
        },
        ["work", id, status] => match find(id) {
            Some(p) => rt::work(&p, &env, status),
            None => 2,
        },
        ["one", id, stream, idx] => match find(id) {
            Some(p) => rt::one(&p, &env, stream, idx.parse().unwrap_or(0), false),
            None => 2,
        },
        ["replay", id, stream, idx] => match find(id) {
            Some(p) => rt::one(&p, &env, stream, idx.parse().unwrap_or(0), true),
            None => 2,
        },
        _ => {
            eprintln!("usage: vh list | check ID | replay ID STREAM INDEX");
            2
        }
    };
    std::process::exit(rc);
}
