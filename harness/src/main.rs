mod avro;
mod cli;
mod fw;
mod fw_bytes;
mod gen;
mod lang;
mod model;
mod net;
mod props;
mod run;
mod tls;
mod wire;

use std::path::Path;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let all = props::all();
    let Some(id) = args.get(1) else {
        eprintln!("usage: harness ID [--replay FILE | --only PART]");
        std::process::exit(2)
    };
    let Some((_, make)) = all.iter().find(|(i, _)| i == id) else {
        eprintln!("unknown property {}", id);
        std::process::exit(2)
    };
    unsafe {
        // writing to a connection the other side has closed is an error, not a signal
        libc::signal(libc::SIGPIPE, libc::SIG_IGN);
    }
    tls::trust_test_root();
    fw::install_panic_hook();
    let property = make();
    let code = match args.get(2).map(String::as_str) {
        Some("--child") => {
            let only = args.get(6).map(String::as_str);
            fw::child_main(&property, args[3].parse().unwrap(), args[4].parse().unwrap(), Path::new(&args[5]), only)
        }
        Some("--replay-raw") => fw::replay_raw(&property, Path::new(&args[3])),
        Some("--replay") => {
            let code = fw::replay_raw(&property, Path::new(&args[3]));
            if code == 1 {
                println!("VIOLATION property={} replay={}", id, args[3]);
            }
            code
        }
        Some("--only") => fw::parent_main(&property, args.get(3).map(String::as_str)),
        _ => fw::parent_main(&property, None),
    };
    std::process::exit(code)
}
