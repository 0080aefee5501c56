//! Drives the library entry point used from build scripts.
//! argv[1]: list file with lines `outdir \t include;include \t input`.
//! Prints one verdict line per input.
use std::path::PathBuf;

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let list = std::fs::read_to_string(std::env::args().nth(1).unwrap()).unwrap();
    for (i, line) in list.lines().enumerate() {
        let f: Vec<String> = line.split('\t').map(str::to_string).collect();
        let out = f[0].clone();
        let incs: Vec<PathBuf> = f[1].split(';').filter(|s| !s.is_empty()).map(PathBuf::from).collect();
        let input = PathBuf::from(&f[2]);
        println!("S {i}");
        let r = std::thread::Builder::new()
            .stack_size(256 << 20)
            .spawn(move || match idlc::Language::Rust.generate(&incs, &input) {
                Ok(d) => {
                    let mut n = 0;
                    for (name, content) in d {
                        n += 1;
                        if !out.is_empty() {
                            std::fs::create_dir_all(&out).unwrap();
                            std::fs::write(PathBuf::from(&out).join(name), content).unwrap();
                        }
                    }
                    format!("ok {n}")
                }
                Err(e) => format!("err {}", e.to_string().replace('\n', " ")),
            })
            .unwrap()
            .join();
        match r {
            Ok(s) => println!("R {i} {s}"),
            Err(_) => println!("R {i} panic"),
        }
    }
}
