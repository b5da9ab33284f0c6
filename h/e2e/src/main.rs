//! Checks that run the SDK's guest side inside the VM: one guest binary, built
//! from /repo's SDK, interprets generated scripts.
#[path = "../../sdk/src/gen.rs"]
#[allow(dead_code)]
mod gen;
#[path = "../../sdk/src/model.rs"]
#[allow(dead_code)]
mod model;
#[path = "../../sdk/src/native.rs"]
#[allow(dead_code)]
mod native;

mod c12;
mod c13;
mod c14;
mod c15;
mod tapes;
mod vm;

fn main() {
    let id = std::env::args().nth(1).unwrap_or_default();
    match id.as_str() {
        "native-run" => native::child(),
        "C12" => c12::check(),
        "C13" => c13::check(),
        "C14" => c14::check(),
        "C15" => c15::check(),
        _ => {
            eprintln!("unknown property {id}");
            std::process::exit(3)
        }
    }
}
