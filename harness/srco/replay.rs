//! Native replay: replay <harness> <file>; the file holds "w v" lines (inputs) and "p v" lines (parameters).
//! Exit 0: harness returned; 101: panicked (the violation reproduces); 77/78: diverged / assumption failed.
use vho::sx;
fn run(args: &[String]) {
    let text = std::fs::read_to_string(&args[2]).unwrap();
    let mut ins = vec![];
    let mut ps = vec![];
    for l in text.lines() {
        let mut it = l.split(' ');
        let k = it.next().unwrap();
        let v: u64 = it.next().unwrap().parse().unwrap();
        if k == "p" {
            ps.push(v)
        } else {
            ins.push((k.parse().unwrap(), v))
        }
    }
    sx::INPUT.with(|c| *c.borrow_mut() = (ins, 0));
    sx::PARAMS.with(|c| *c.borrow_mut() = ps);
    for l in vho::lists() {
        for (n, f) in l.iter() {
            if n == &args[1] {
                f();
                let o = sx::OBS.with(|o| o.borrow().clone());
                println!("OBS {:?}", o);
                return;
            }
        }
    }
    eprintln!("no harness {}", args[1]);
    std::process::exit(79);
}
fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args[1] == "--list" {
        for l in vho::lists() {
            for (n, _) in l.iter() {
                println!("{n}");
            }
        }
        return;
    }
    run(&args)
}
