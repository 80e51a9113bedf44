//! The conformance harness: it drives the public interfaces of the crates of /repo with the
//! cases generated from the specification, and records what they do.  It never judges.
mod cache;
mod detect;
mod fetch;
mod files;
mod gz;
mod index;
mod lines;
mod pipeline;
mod render;
mod store;
mod tokens;
mod tree;
mod util;
mod web;
mod zuul;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    let (cmd, inp, out) = match args.as_slice() {
        [_, a, b, c, ..] => (a.as_str(), b.as_str(), c.as_str()),
        _ => {
            eprintln!("usage: vh CMD IN OUT [ARGS]");
            std::process::exit(3)
        }
    };
    let rest = &args[4..];
    match cmd {
        "lines" => util::each(inp, out, 8, |c| lines::run(c)),
        "detect" => util::each(inp, out, 8, |c| detect::run(c)),
        "detect-fuzz" => detect::fuzz(out, rest),
        "index" => util::each(inp, out, 8, |c| index::run(c)),
        "index-fuzz" => index::fuzz(out, rest),
        "pipeline" => util::each(inp, out, 8, |c| pipeline::run(c)),
        "tree" => util::each(inp, out, 8, |c| pipeline::tree(c)),
        "store" => util::each(inp, out, 1, |c| store::run(c)),
        "store-phase" => util::each(inp, out, 8, |c| store::phase(c)),
        "name" => util::each(inp, out, 8, |c| files::name(c)),
        "discover-one" => util::each(inp, out, 1, |c| files::discover(c)),
        "discover" => util::each(inp, out, 8, |c| files::discover(c)),
        "cache" => util::each(inp, out, 8, |c| cache::run(c)),
        "cache-one" => util::each(inp, out, 1, |c| cache::one(c)),
        "fetch" => util::each(inp, out, 8, |c| fetch::run(c)),
        "fetch-one" => util::each(inp, out, 1, |c| fetch::one(c)),
        "gz" => util::each(inp, out, 8, |c| gz::run(c)),
        "tokens" => util::each(inp, out, 8, |c| tokens::run(c)),
        "render" => util::each(inp, out, 8, |c| render::run(c)),
        "zuul" => util::each(inp, out, 8, |c| zuul::run(c)),
        "zuul-one" => util::each(inp, out, 1, |c| zuul::one(c)),
        "zuul-decode" => util::each(inp, out, 8, |c| zuul::decode(c)),
        "crawl" => util::each(inp, out, 16, |c| web::crawl(c)),
        "lines-fuzz" => lines::fuzz(out, rest),
        "lines-big" => util::each(inp, out, 1, |c| lines::big(c)),
        _ => {
            eprintln!("unknown command {}", cmd);
            std::process::exit(3)
        }
    }
}
