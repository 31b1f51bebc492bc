//! The command line tool, driven as a process in scratch directories.
#[path = "../../mc/src/fw.rs"]
#[macro_use]
pub mod fw;
#[path = "../../mc/src/sig.rs"]
pub mod sig;
mod tool;
mod c20;
mod c21;
mod c22;
mod c23;

fn main() {
    let fw = fw::Fw::from_args("command line");
    tool::init(&fw.scratch);
    match fw.prop.as_str() {
        "C20" => c20::run(&fw),
        "C21" => c21::run(&fw),
        "C22" => c22::run(&fw),
        "C23" => c23::run(&fw),
        x => panic!("unknown property {x}"),
    }
    tool::cleanup();
    fw.finish_and_exit();
}
