//! Native replay of a counterexample: `replay <entry> <inputs-file>`.
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 3 {
        for (n, _) in harness::ENTRIES {
            println!("{}", n);
        }
        return;
    }
    let text = std::fs::read_to_string(&a[2]).expect("inputs");
    symrt::init(&text);
    for (n, f) in harness::ENTRIES {
        if *n == a[1] {
            f();
            println!("COMPLETED");
            return;
        }
    }
    eprintln!("no entry {}", a[1]);
    std::process::exit(2);
}
