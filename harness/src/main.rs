mod attrs;
mod book;
mod cond;
mod core;
mod escape;
mod fmt;
mod markup;
mod gen;
mod io;
mod layout;
mod refs;
mod rich;
mod sheet;
mod values;

use crate::core::Ctx;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let prop = a[1].as_str();
    let thorough = a[2] == "thorough";
    let seed: u64 = a[3].parse().unwrap_or(1);
    let out = a[4].as_str();
    let budget: u64 = a.get(5).and_then(|v| v.parse().ok()).unwrap_or(if thorough { 600 } else { 60 });
    if std::env::var("VP_SHOW_PANIC").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let mut ctx = Ctx::new(prop, thorough, seed, out, budget);
    match prop {
        "C01" => refs::c01(&mut ctx),
        "C02" => refs::c02(&mut ctx),
        "C14" => refs::c14(&mut ctx),
        "C03" => sheet::c03(&mut ctx),
        "C04" => sheet::c04(&mut ctx),
        "C06" => io::c06(&mut ctx),
        "C07" => layout::c07(&mut ctx),
        "C08" => layout::c08(&mut ctx),
        "C09" => values::c09(&mut ctx),
        "C13" => values::c13(&mut ctx),
        "C05" => sheet::c05(&mut ctx),
        "C10" => escape::c10(&mut ctx),
        "C11" => rich::c11(&mut ctx),
        "C15" => rich::c15(&mut ctx),
        "C12" => book::c12(&mut ctx),
        "C16" => cond::c16(&mut ctx),
        "C19" => fmt::c19(&mut ctx),
        "C20" => markup::c20(&mut ctx),
        _ => panic!("unknown property {}", prop),
    }
    ctx.finish();
}
