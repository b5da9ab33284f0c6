mod gen;
mod model;
mod native;

mod c08;
mod c09;
mod c10;
mod c11;

fn main() {
    let id = std::env::args().nth(1).unwrap_or_default();
    match id.as_str() {
        "native-run" => native::child(),
        "C08" => c08::check(),
        "C09" => c09::check(),
        "C10" => c10::check(),
        "C11" => c11::check(),
        _ => {
            eprintln!("unknown property {id}");
            std::process::exit(3)
        }
    }
}
