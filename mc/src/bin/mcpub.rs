use mc::{api, fw::Fw, p};
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).map(|s| s == "--baseline").unwrap_or(false) {
        // panics are reported in-band
        std::panic::set_hook(Box::new(|_| {}));
        p::c01::baseline_child(a[2].parse().unwrap(), a[3].parse().unwrap(), &a[4]);
        return;
    }
    let fw = Fw::from_args("public interface");
    api::init(&fw.scratch);
    match fw.prop.as_str() {
        "C01" => p::c01::run(&fw),
        "C02" => p::c02::run(&fw),
        "C03" => p::c03::run(&fw),
        "C04" => p::c04::run(&fw),
        "C05" => p::c05::run(&fw),
        "C06" => p::c06::run(&fw),
        "C07" => p::c07::run(&fw),
        "C08" => p::c08::run(&fw),
        "C09" => p::c09::run(&fw),
        "C10" => p::c10::run(&fw),
        "C11" => p::c11::run(&fw),
        "C12" => p::c12::run(&fw),
        "C13" => p::c13::run(&fw),
        "C14" => p::c14::run(&fw),
        "C15" => p::c15::run(&fw),
        "C16" => p::c16::run(&fw),
        "C17" => p::c17::run(&fw),
        "C18" => p::c18::run(&fw),
        "C19" => p::c19::run(&fw),
        "C25" => p::c25::run(&fw),
        "C26" => p::c26::run(&fw),
        "C27" => p::c27::run(&fw),
        x => panic!("unknown property {x}"),
    }
    api::cleanup();
    fw.finish_and_exit();
}
