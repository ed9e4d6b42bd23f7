mod xml; mod rx; mod meta; mod model; mod imp; mod explore; mod json; mod val; mod engine; mod props;
#[global_allocator]
static ALLOC: props::mem::Counting = props::mem::Counting;
fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let s: Vec<&str> = a.iter().map(|s| s.as_str()).collect();
    let code = match s.as_slice() {
        ["--worker", p, tier, work] => engine::worker(p, *tier == "thorough", work, None),
        ["--trace", p, tier, work, ph, it, file] => engine::worker(p, *tier == "thorough", work, Some((ph.parse().unwrap(), it.parse().unwrap(), file.to_string()))),
        ["--first", i] => props::first(i.parse().unwrap()),
        ["--one", j] => props::one(j),
        ["replay", f] => engine::replay(f),
        [p] => engine::supervise(p, &std::env::var("VERIF_TIER").unwrap_or("quick".into())),
        [p, tier] => engine::supervise(p, tier),
        _ => { eprintln!("usage: mc <property> [quick|thorough] | mc replay <file>"); 3 }
    };
    std::process::exit(code);
}
