#[macro_use]
mod core;
mod oracle;
mod props;
mod runner;
mod sig;

#[cfg(any(feature = "c37", feature = "c38"))]
#[global_allocator]
static HEAP: props::heap::Counting = props::heap::Counting;

fn main() {
    #[cfg(all(feature = "c06", feature = "k-parallel"))]
    if std::env::args().nth(1).as_deref() == Some("--jobs") {
        std::panic::set_hook(Box::new(|_| {}));
        return props::layout::tuned::jobs_main();
    }
    #[cfg(feature = "c08")]
    {
        let args: Vec<String> = std::env::args().collect();
        if args.get(1).map(|s| s.as_str()) == Some("--serve") {
            std::panic::set_hook(Box::new(|_| {}));
            return props::cross::serve();
        }
        if let Some(p) = runner::arg(&args, "--peers") {
            let v = p.split(',').filter_map(|x| x.split_once('=')).map(|(a, b)| (a.to_string(), b.to_string())).collect();
            let _ = props::cross::PEERS.set(v);
        }
    }
    runner::main(props::register)
}
