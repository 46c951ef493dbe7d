//! Run a harness on the values of a counterexample: replay MODULE::TIER::NAME BYTE...
fn main() {
    #[cfg(not(kani))]
    {
        let mut arguments = std::env::args().skip(1);
        let name = arguments.next().expect("the harness");
        relp_kani::kani::VALUES.with(|v| v.borrow_mut().extend(arguments.map(|b| b.parse::<u8>().unwrap())));
        let parts = name.split("::").collect::<Vec<_>>();
        let run = match (parts[0], parts[1]) {
            ("permutations", "quick") => relp_kani::permutations::quick::run,
            ("permutations", _) => relp_kani::permutations::thorough::run,
            (_, "quick") => relp_kani::literals::quick::run,
            _ => relp_kani::literals::thorough::run,
        };
        assert!(run(parts[2]));
    }
}
