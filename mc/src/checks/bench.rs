use crate::engine::*;
use crate::session::*;
use serde_json::Value;
pub struct Bench;
impl Check for Bench {
    fn id(&self) -> &'static str { "B00" }
    fn enumerate(&self, _: Tier, f: &mut dyn FnMut(Value)) { f(Value::Null) }
    fn run(&self, w: &mut World, _: &Value, _: &mut Rec) {
        w.write("templates/o.html", "x");
        let t = std::time::Instant::now();
        for _ in 0..20 { let mut s = Session::new(Opts{options: w.options("rust"), client: None, initialized: true}); s.settle(1); }
        eprintln!("session {:?}", t.elapsed()/20);
        let t = std::time::Instant::now();
        for _ in 0..20 { let mut s = Session::raw(); s.settle(1); }
        eprintln!("raw {:?}", t.elapsed()/20);
        let mut s = Session::new(Opts{options: w.options("rust"), client: None, initialized: true});
        let u = w.uri("templates/t.html");
        let t = std::time::Instant::now();
        for _ in 0..1000 { s.open(&u, "{% set a = 1 %}{{ a }}{{ b }}"); s.settle(1); }
        eprintln!("open {:?}", t.elapsed()/1000);
        let t = std::time::Instant::now();
        for _ in 0..1000 { s.hover(&u, 0, 20); }
        eprintln!("hover {:?}", t.elapsed()/1000);
        let t = std::time::Instant::now();
        for _ in 0..1000 { s.complete(&u, 0, 19); }
        eprintln!("complete {:?}", t.elapsed()/1000);
    }
    fn bounds(&self, _: Tier) -> String { String::new() }
    fn workers(&self) -> usize { 1 }
}
