mod sym;
mod world;
#[allow(dead_code)]
#[path = "../../runner/src/gen.rs"]
mod gen;
#[allow(dead_code)]
#[path = "../../runner/src/model.rs"]
mod model;
#[allow(dead_code)]
#[path = "../../runner/src/drive.rs"]
mod drive;
mod c16;
mod c17;
mod c21;
mod forge;
mod local;

fn main() {
    let id = std::env::args().nth(1).unwrap_or_default();
    match id.as_str() {
        "C16" => c16::check(),
        "C21" => c21::check(),
        "C17" => c17::check(),
        "sweep" => c17::sweep(std::env::args().nth(2).unwrap().parse().unwrap(), &std::env::args().nth(3).unwrap()),
        "sides" => {
            let r = world::Rules::new();
            for (k, c) in r.ctls.iter().enumerate() {
                println!("{k}: {}", c.iter().map(|s| format!("{:?}[{}]{}", world::kind(s.table), s.cols.len(), s.filter.lv.iter().chain(&s.filter.nv).map(|x| if x.1.0 > 1 << 63 { "-" } else { "+" }).collect::<String>())).collect::<Vec<_>>().join(" "));
            }
            for (t, s) in r.slps(plonky2::field::types::Field::ONE).iter().enumerate() { println!("{t} {:?}: {} columns, {} constraints", world::kind(t), s.width, s.len()); }
        }
        "explore" => c16::explore(std::env::args().nth(2).unwrap().parse().unwrap()),
        _ => {
            eprintln!("unknown property {id}");
            std::process::exit(3)
        }
    }
}
