//! Explorer of wrapper lifecycles: enumerates all histories over a set of recipes, executes each
//! on the real library with allocators that own every nondeterministic decision, and compares
//! with a reference model after every step.

mod emit;
mod heap;
mod mem;
mod report;
mod spaces;
mod world;
mod wrap;

use report::*;
use world::*;

#[global_allocator]
static LEDGER: heap::Ledger = heap::Ledger;

fn describe(sp: &Space, acts: &[Act]) -> String {
    let mut s = format!("space={} ", sp.name);
    for a in acts {
        let t = match a {
            Act::New(r) => format!("New({})", sp.recipes[*r as usize].name()),
            Act::NewFail(r, k, f) => format!("NewFail({},call {k},{f:?})", sp.recipes[*r as usize].name()),
            Act::Up(i, to) => format!("Upcast({i},{})", wrap::FORMS[*to as usize]),
            Act::Into(i, to) => format!("Into({i},{})", wrap::FORMS[*to as usize]),
            Act::CallW(i, Inner::New(r)) => format!("CallWith({i},New({}))", sp.recipes[*r as usize].name()),
            Act::CallLW(i, Inner::New(r)) => format!("CallLeakedWith({i},New({}))", sp.recipes[*r as usize].name()),
            Act::DropW(i, Inner::New(r)) => format!("DropWith({i},New({}))", sp.recipes[*r as usize].name()),
            other => format!("{other:?}"),
        };
        s.push_str(&t);
        s.push(' ');
    }
    s
}

struct Explorer<'a> {
    sp: &'a Space,
    path: Vec<Act>,
    shard: (u64, u64),
    counter: u64,
    only: Option<&'a str>,
}
impl<'a> Explorer<'a> {
    fn go(&mut self, m: &M) {
        let depth = self.path.len();
        if depth == self.sp.depth.min(3) {
            self.counter += 1;
            if self.counter % self.shard.1 != self.shard.0 {
                return;
            }
        }
        if depth == self.sp.depth {
            self.run();
            return;
        }
        let mut acts = vec![];
        m.actions(self.sp, &mut acts);
        for a in acts {
            let mut n = m.clone();
            n.apply(self.sp, a);
            self.path.push(a);
            self.go(&n);
            self.path.pop();
        }
    }
    fn run(&mut self) {
        let case = describe(self.sp, &self.path);
        if let Some(only) = self.only {
            if !case.contains(only) {
                return;
            }
        }
        set_case(&case);
        let st = stats();
        st.histories += 1;
        if st.samples.len() < 3 && st.histories % 997 == 1 {
            st.samples.push(case.clone());
        }
        let mut mism = [None; 3];
        for m in mism.iter_mut() {
            let mut e = Exec::new(self.sp);
            for a in &self.path {
                e.exec(*a);
            }
            e.finish(self.path.len() % 2 == 1);
            *m = e.heap_mismatch;
            if m.is_none() {
                return;
            }
            // memory the library keeps for itself on first use is not a leak: look again
            heap::forget();
        }
        if mism[1].is_some() && mism[2].is_some() {
            let (got, want) = mism[2].unwrap();
            if got == usize::MAX {
                return;
            }
            let what = format!("{got} heap blocks remain where {want} leaked closures account for them");
            viol("C05", &what);
            viol("C03", &what);
        }
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |n: &str| args.iter().position(|a| a == n).and_then(|i| args.get(i + 1)).map(|s| s.as_str());
    let prop: &'static str = Box::leak(get("--prop").unwrap_or("C02").to_string().into_boxed_str());
    let shard = get("--shard").unwrap_or("0/1");
    let (k, n) = shard.split_once('/').unwrap();
    let shard: (u64, u64) = (k.parse().unwrap(), n.parse().unwrap());
    let tier = get("--tier").unwrap_or("quick");
    let only = get("--case");
    let only_space = get("--space");
    unsafe {
        PROP = prop;
        STATS = Some(Stats::default());
    }
    install_signals();
    std::panic::set_hook(Box::new(|_| {}));
    let _ = std::panic::catch_unwind(|| panic!("warm up"));

    if prop == "C06" {
        mem::init(mem::Mode::Pages, mem::Policy::Lifo);
        emit::run(shard, tier);
    } else {
        mem::init(mem::Mode::Slots, mem::Policy::Lifo);
        if prop == "C19" {
            spaces::adapters(shard, tier);
        }
        for sp in spaces::spaces(prop, tier) {
            if only_space.is_some_and(|s| s != sp.name) {
                continue;
            }
            let before = stats().histories;
            mem::sh().policy = sp.policy;
            for (i, s) in sp.skews.iter().enumerate() {
                mem::sh().st[i].skew = *s;
            }
            let t0 = std::time::Instant::now();
            let mut ex = Explorer { sp: &sp, path: vec![], shard, counter: 0, only };
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| ex.go(&M::new())));
            if r.is_err() {
                for p in ["C02", "C03", "C04", "C05", "C19"] {
                    viol(p, "an operation panicked unexpectedly");
                }
            }
            let n = stats().histories - before;
            if args.iter().any(|a| a == "--verbose") {
                eprintln!("{}: {n} histories {:?}", sp.name, t0.elapsed());
            }
            stats().spaces.push((sp.name.to_string(), n));
        }
    }
    print_result();
}
