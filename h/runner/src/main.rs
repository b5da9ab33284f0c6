mod drive;
mod elfgen;
mod gen;
mod model;

mod c01;
mod c02_06;
mod c07;

fn main() {
    let id = std::env::args().nth(1).unwrap_or_default();
    match id.as_str() {
        "C01" => c01::check(),
        "C02" => c02_06::alu(),
        "C03" => c02_06::memory(),
        "C04" => c02_06::record(),
        "C05" => c02_06::tapes(),
        "C06" => c02_06::poseidon(),
        "C07" => c07::check(),
        _ => {
            eprintln!("unknown property {id}");
            std::process::exit(3)
        }
    }
}
