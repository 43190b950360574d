mod bigbuf;
mod case;
mod cfgs;
mod checks;
mod cli;
mod ct;
mod gen;
mod guide;
mod mem;
mod model;
mod refer;
mod runner;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("replay") => runner::replay(&args[2]),
        Some("oracle") => match model::self_check() {
            Ok(n) => {
                println!("{n} vectors");
                0
            }
            Err(e) => {
                println!("{e}");
                1
            }
        },
        Some("C14") => cli::run("C14"),
        Some("C15") => cli::run("C15"),
        Some("hog") => mem::hog(&args[2]),
        Some("C22") => mem::run(),
        Some("C16") => ct::run(),
        Some(id) => match checks::find(id) {
            Some(c) => runner::run(&c),
            None => {
                eprintln!("no check {id}");
                2
            }
        },
        None => 2,
    };
    std::process::exit(code);
}
