fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.get(1).map(|s| s.as_str()) == Some("gen") {
        // gen SEED COUNT: the text of the derived types
        let n = |i: usize| args.get(i).and_then(|s: &String| s.trim().parse::<u64>().ok()).unwrap_or(1);
        print!("{}", vh::labgen::module(n(2), n(3) as usize));
        return;
    }
    vh::engine::main_with(vh::props::CORE);
}
