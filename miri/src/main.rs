//! Runs the generator; meant to be interpreted by Miri or built with AddressSanitizer.
//! Jobs come as arguments or, without any, as lines of standard input: grammar file, target
//! directory, language, algorithm, options ("l": lexer, "t": table), separated by tabs.
use lapex::{generate, Language, ParsingAlgorithm};
use std::io::BufRead;
use std::path::Path;

fn job(a: &[String]) -> String {
    let language = if a[2] == "rust" { Language::Rust } else { Language::Cpp };
    let algorithm = match a[3].as_str() {
        "ll1" => ParsingAlgorithm::LL1,
        "lr0" => ParsingAlgorithm::LR0,
        "lalr" => ParsingAlgorithm::LALR,
        "lr1" => ParsingAlgorithm::LR1,
        _ => ParsingAlgorithm::GLR,
    };
    let r = std::panic::catch_unwind(|| {
        generate(
            a[4].contains('l'),
            algorithm,
            a[4].contains('t'),
            Path::new(&a[0]),
            Path::new(&a[1]),
            language,
            lapex_input_gen::GeneratedLapexInputParser {},
        )
        .map_err(|e| e.iter().map(|x| x.to_string().len()).sum::<usize>())
    });
    match r {
        Ok(Ok(())) => "done".into(),
        Ok(Err(n)) => format!("errors {}", n),
        Err(_) => "panic".into(),
    }
}

fn main() {
    if std::env::var_os("LAPEXMON_LOUD").is_none() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let a: Vec<String> = std::env::args().skip(1).collect();
    if a.len() >= 5 {
        println!("{}", job(&a));
        return;
    }
    for line in std::io::stdin().lock().lines() {
        let f: Vec<String> = line.unwrap().split('\t').map(|s| s.to_string()).collect();
        if f.len() >= 5 {
            println!("{}", job(&f));
        }
    }
}
