mod world;
mod c18;
mod c19;
mod c20;

fn main() {
    match std::env::args().nth(1).unwrap_or_default().as_str() {
        "C18" => c18::check(),
        "C19" => c19::check(),
        "C20" => c20::check(),
        id => {
            eprintln!("unknown property {id}");
            std::process::exit(3)
        }
    }
}
