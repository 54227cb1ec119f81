//! Symbolic interpreter: executes the parsed IR, forking on symbolic control flow.
use crate::expr::*;
use crate::ll::*;
use crate::z3::{Ans, Z3};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use std::time::Instant;

const PG: usize = 64;
const UNINIT: u32 = u32::MAX;

#[derive(Clone)]
enum Page {
    Fill(u32),
    Data(Rc<[u32; PG]>),
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Heap,
    Stack,
    Global,
    Const,
    Phantom,
}
#[derive(Clone)]
pub struct Obj {
    base: u64,
    size: u64,
    size_e: Option<E>,
    pages: Vec<Page>,
    kind: Kind,
}
impl Obj {
    fn new(base: u64, size: u64, kind: Kind, fill: u32) -> Obj {
        let n = if kind == Kind::Phantom { 0 } else { (size as usize + PG - 1) / PG };
        Obj { base, size, size_e: None, pages: vec![Page::Fill(fill); n], kind }
    }
    #[inline]
    fn get(&self, off: u64) -> u32 {
        let o = off as usize;
        match &self.pages[o / PG] {
            Page::Fill(v) => *v,
            Page::Data(d) => d[o % PG],
        }
    }
    #[inline]
    fn set(&mut self, off: u64, v: u32) {
        let o = off as usize;
        let p = &mut self.pages[o / PG];
        if let Page::Fill(f) = p {
            if *f == v {
                return;
            }
            *p = Page::Data(Rc::new([*f; PG]));
        }
        if let Page::Data(d) = p {
            Rc::make_mut(d)[o % PG] = v;
        }
    }
    fn fill(&mut self, off: u64, n: u64, v: u32) {
        let (mut o, end) = (off as usize, (off + n) as usize);
        while o < end {
            if o % PG == 0 && o + PG <= end {
                self.pages[o / PG] = Page::Fill(v);
                o += PG;
            } else {
                self.set(o as u64, v);
                o += 1;
            }
        }
    }
}

#[derive(Clone)]
pub struct Frame {
    f: Rc<Func>,
    block: u32,
    ip: u32,
    regs: Vec<Val>,
    allocas: Vec<u64>,
    ret: Option<u32>,
}

#[derive(Clone)]
pub struct State {
    frames: Vec<Rc<Frame>>,
    mem: Vec<(u64, Option<Rc<Obj>>)>,
    dead: usize,
    next: u64,
    gover: Rc<FxMap<u32, Rc<Obj>>>,
    pc: Vec<E>,
    known: Rc<FxMap<E, E>>,
    smemo: Rc<std::cell::RefCell<FxMap<E, E>>>,
    model: Rc<Model>,
    inputs: Vec<(u32, u8)>,
    nin: usize,
    nfresh: usize,
    pub observed: Vec<E>,
    steps: u64,
    alloc_limit: u64,
    forks: u32,
    slack: i64,
}

pub struct Violation {
    pub key: String,
    pub kind: String,
    pub msg: String,
    pub inputs: Vec<(u8, u128)>,
    pub trace: Vec<String>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Sp {
    None,
    U(u8),
    Fresh,
    Assume,
    Assert,
    Reach,
    Limit,
    Observe,
    Conc,
    IsEngine,
    Phantom,
    Len,
    Stop,
    Malloc,
    Calloc,
    Realloc,
    Memalign,
    Free,
    Bcmp,
    Memcmp,
    Memcpy,
    Memmove,
    Memset,
    Strlen,
    Panic,
    Abort,
    Nop,
    Write,
    Zero,
    Umin,
    Umax,
    Smin,
    Smax,
    Fshl,
    Fshr,
    UMulO,
    UAddO,
    USubO,
    SAddO,
    SSubO,
    SMulO,
    Ctpop,
    Cttz,
    Ctlz,
    USubS,
    UAddS,
    IsConst,
    Ucmp,
    Scmp,
    Tla,
    Bswap,
    BitRev,
    Abs,
    Expect,
    ReduceOr,
    ReduceAnd,
    ReduceAdd,
    Unknown,
}

enum End {
    Done,
    Infeasible,
    Viol(String, String, String),
    Error(String),
    Killed,
}
type R<T> = Result<T, End>;

pub struct Config {
    pub max_steps: u64,
    pub max_time: f64,
    pub query_ms: u32,
    pub concrete: Option<Vec<u128>>,
    pub max_viol: usize,
    pub prof: bool,
    pub trace: bool,
    pub entry: String,
    pub out: String,
}

pub struct Exec {
    pub cx: Ctx,
    pub z3: Z3,
    pub m: Module,
    fns: Vec<Option<Rc<Func>>>,
    sp: Vec<Sp>,
    gcache: FxMap<u32, Rc<Obj>>,
    work: Vec<State>,
    qcache: HashMap<Vec<E>, Option<Rc<Vec<(u32, u128)>>>>,
    pub cache_hits: u64,
    pub model_hits: u64,
    pub viols: Vec<Violation>,
    pub errors: Vec<String>,
    pub paths: u64,
    pub infeasible: u64,
    pub instrs: u64,
    pub reach: BTreeMap<u32, u64>,
    pub asserts: BTreeMap<u32, u64>,
    pub fn_seen: BTreeSet<u32>,
    pub prof: HashMap<String, u64>,
    pub cfg: Config,
    pub t0: Instant,
    pub timed_out: bool,
    pub max_pc: usize,
    pub max_path_steps: u64,
    pub observed: Vec<u128>,
    pub samples: Vec<(Vec<u128>, Vec<u128>)>,
    pub ninputs_max: usize,
}

impl Exec {
    pub fn new(m: Module, cfg: Config) -> Exec {
        let n = m.fns.len();
        let sp = m.fns.iter().map(|f| classify(&f.name, f.body.is_some())).collect();
        Exec {
            cx: Ctx::new(),
            z3: Z3::new(cfg.query_ms),
            m,
            fns: (0..n).map(|_| None).collect(),
            sp,
            gcache: Default::default(),
            work: vec![],
            qcache: HashMap::new(),
            cache_hits: 0,
            model_hits: 0,
            viols: vec![],
            errors: vec![],
            paths: 0,
            infeasible: 0,
            instrs: 0,
            reach: BTreeMap::new(),
            asserts: BTreeMap::new(),
            fn_seen: BTreeSet::new(),
            prof: HashMap::new(),
            cfg,
            t0: Instant::now(),
            timed_out: false,
            max_pc: 0,
            max_path_steps: 0,
            observed: vec![],
            samples: vec![],
            ninputs_max: 0,
        }
    }

    fn func(&mut self, id: u32) -> Rc<Func> {
        if let Some(f) = &self.fns[id as usize] {
            return f.clone();
        }
        let f = Rc::new(self.m.parse_fn(&mut self.cx, id));
        self.fns[id as usize] = Some(f.clone());
        f
    }

    pub fn run(&mut self, entry: &str) {
        let id = match self.m.fname.get(entry) {
            Some(i) => *i,
            None => {
                self.errors.push(format!("entry {} not found", entry));
                return;
            }
        };
        let f = self.func(id);
        let fr = Frame { block: 0, ip: 0, regs: vec![Val::Undef; f.nregs as usize], allocas: vec![], ret: None, f };
        let st = State {
            frames: vec![Rc::new(fr)],
            mem: vec![],
            dead: 0,
            next: HEAP_BASE,
            gover: Default::default(),
            pc: vec![],
            known: Default::default(),
            smemo: Default::default(),
            model: Default::default(),
            inputs: vec![],
            nin: 0,
            nfresh: 0,
            observed: vec![],
            steps: 0,
            alloc_limit: 1 << 20,
            forks: 0,
            slack: 0,
        };
        self.work.push(st);
        while let Some(mut st) = self.work.pop() {
            if self.t0.elapsed().as_secs_f64() > self.cfg.max_time {
                self.timed_out = true;
                break;
            }
            let end = self.run_state(&mut st);
            self.max_pc = self.max_pc.max(st.pc.len());
            self.max_path_steps = self.max_path_steps.max(st.steps);
            self.ninputs_max = self.ninputs_max.max(st.inputs.len());
            match end {
                End::Done => {
                    self.paths += 1;
                    if self.cfg.concrete.is_some() {
                        let o = st.observed.clone();
                        self.observed = o.iter().map(|&e| self.cx.eval(e, &st.model)).collect();
                    } else if self.paths <= 4 || (self.paths.is_power_of_two() && self.samples.len() < 16) {
                        let o = st.observed.clone();
                        let obs: Vec<u128> = o.iter().map(|&e| self.cx.eval(e, &st.model)).collect();
                        let ins: Vec<u128> = st.inputs.iter().map(|x| st.model.vals.get(&x.0).copied().unwrap_or(0)).collect();
                        self.samples.push((ins, obs));
                    }
                }
                End::Killed => self.paths += 1,
                End::Infeasible => self.infeasible += 1,
                End::Viol(kind, key, msg) => {
                    self.paths += 1;
                    let m = st.model.clone();
                    self.add_viol(&st, &m, kind, key, msg);
                    if self.viols.len() >= self.cfg.max_viol {
                        break;
                    }
                }
                End::Error(e) => {
                    let tr = self.backtrace(&st).join(" < ");
                    let m = format!("{} at {}", e, tr);
                    if !self.errors.contains(&m) {
                        self.errors.push(m);
                    }
                    if self.errors.len() > 8 {
                        break;
                    }
                }
            }
            if self.timed_out {
                break;
            }
        }
    }
    fn backtrace(&self, st: &State) -> Vec<String> {
        st.frames
            .iter()
            .rev()
            .take(12)
            .map(|f| format!("{}:{}:{}", short(&f.f.name), f.f.blocks[f.block as usize].label, f.ip))
            .collect()
    }
    fn add_viol(&mut self, st: &State, model: &Model, kind: String, key: String, msg: String) {
        if self.viols.iter().any(|v| v.key == key) {
            return;
        }
        let inputs = st
            .inputs
            .iter()
            .map(|&(v, w)| (w, model.vals.get(&v).copied().unwrap_or(0)))
            .collect();
        let trace = self.backtrace(st);
        self.viols.push(Violation { key, kind, msg, inputs, trace });
        // Whatever happens to the rest of the exploration, what was found is on file.
        if !self.cfg.out.is_empty() {
            let _ = std::fs::write(&self.cfg.out, crate::report(self, true));
        }
    }

    // ------------------------------------------------------------ constraints
    fn simp(&mut self, st: &State, e: E) -> E {
        if self.cx.cv(e).is_some() || st.known.is_empty() {
            return e;
        }
        let mut memo = st.smemo.borrow_mut();
        self.cx.subst(e, &st.known, &mut memo)
    }
    fn learn(&mut self, st: &mut State, c: E, val: bool) {
        let one = self.cx.con(1, val as u128);
        let n = self.cx.n(c);
        let known = Rc::make_mut(&mut st.known);
        known.insert(c, one);
        st.smemo = Default::default();
        match (n.op, val) {
            (Op::Not, _) => self.learn(st, n.a, !val),
            (Op::And, true) | (Op::Or, false) => {
                self.learn(st, n.a, val);
                self.learn(st, n.b, val);
            }
            (Op::Eq, true) => {
                if self.cx.cv(n.b).is_some() {
                    self.learn_eq(st, n.a, n.b);
                }
            }
            _ => {}
        }
    }
    fn learn_eq(&mut self, st: &mut State, a: E, k: E) {
        Rc::make_mut(&mut st.known).insert(a, k);
        let n = self.cx.n(a);
        if n.op == Op::Concat {
            let wl = self.cx.w(n.b);
            let wh = self.cx.w(n.a);
            let kh = self.cx.extract(k, wl, wh);
            let kl = self.cx.extract(k, 0, wl);
            self.learn_eq(st, n.a, kh);
            self.learn_eq(st, n.b, kl);
        }
    }
    fn assume(&mut self, st: &mut State, c: E) {
        if self.cx.cv(c) == Some(1) {
            return;
        }
        let n = self.cx.n(c);
        if n.op == Op::And {
            self.assume(st, n.a);
            self.assume(st, n.b);
            return;
        }
        st.pc.push(c);
        self.learn(st, c, true);
    }
    /// Like `sat`, but tries random values for the variables the path does not constrain first.
    fn guess_or_sat(&mut self, st: &State, c: E) -> R<Option<Rc<Model>>> {
        if self.cx.cv(c).is_none() && self.cx.eval(c, &st.model) != 1 {
            let mut bound: FxMap<u32, ()> = Default::default();
            for &p in st.pc.iter() {
                for &v in self.cx.vars_of(p).iter() {
                    bound.insert(v, ());
                }
            }
            let free: Vec<u32> = self.cx.vars_of(c).iter().copied().filter(|v| !bound.contains_key(v)).collect();
            let mut seed = 0x9E37_79B9_7F4A_7C15u64;
            for _ in 0..if free.is_empty() { 0 } else { 3 } {
                let mut m = Model { vals: st.model.vals.clone(), memo: Default::default() };
                for &v in &free {
                    seed = seed.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                    let w = self.cx.vars[v as usize].0 as u32;
                    let x = (seed >> 20) as u128 ^ ((seed as u128) << 40);
                    m.vals.insert(v, if w >= 128 { x } else { x & ((1u128 << w) - 1) });
                }
                if self.cx.eval(c, &m) == 1 {
                    self.model_hits += 1;
                    return Ok(Some(Rc::new(m)));
                }
            }
        }
        self.sat(st, c)
    }
    /// Is pc && c satisfiable? Returns a model of both.
    fn sat(&mut self, st: &State, c: E) -> R<Option<Rc<Model>>> {
        if let Some(v) = self.cx.cv(c) {
            return Ok(if v == 1 { Some(st.model.clone()) } else { None });
        }
        if self.cx.eval(c, &st.model) == 1 {
            self.model_hits += 1;
            return Ok(Some(st.model.clone()));
        }
        // independence slicing
        let cv = self.cx.vars_of(c);
        let mut set: FxMap<u32, ()> = Default::default();
        for &v in cv.iter() {
            set.insert(v, ());
        }
        let mut used = vec![false; st.pc.len()];
        let mut q = vec![];
        loop {
            let mut ch = false;
            for (i, &p) in st.pc.iter().enumerate() {
                if used[i] {
                    continue;
                }
                let vs = self.cx.vars_of(p);
                if vs.iter().any(|v| set.contains_key(v)) {
                    used[i] = true;
                    q.push(p);
                    for &v in vs.iter() {
                        if set.insert(v, ()).is_none() {
                            ch = true;
                        }
                    }
                }
            }
            if !ch {
                break;
            }
        }
        q.push(c);
        q.sort_unstable();
        q.dedup();
        let ans = if let Some(a) = self.qcache.get(&q) {
            self.cache_hits += 1;
            a.clone()
        } else {
            let t = Instant::now();
            let left = (self.cfg.max_time - self.t0.elapsed().as_secs_f64()).max(1.0) + 10.0;
            let r = match self.z3.check(&mut self.cx, &q, (left * 1000.0) as u32) {
                Ans::Unsat => None,
                Ans::Sat(m) => Some(Rc::new(m)),
                Ans::Unknown => return Err(End::Error("solver gave up (unknown)".into())),
            };
            if self.cfg.prof {
                let d = (t.elapsed().as_secs_f64() * 1e6) as u64;
                let fr = st.frames.last().unwrap();
                *self.prof.entry(format!("QUERYus {} {}", short(&fr.f.name), fr.f.blocks[fr.block as usize].label)).or_insert(0) += d;
            }
            self.qcache.insert(q, r.clone());
            r
        };
        Ok(ans.map(|vals| {
            let mut m = Model { vals: st.model.vals.clone(), memo: Default::default() };
            for &(v, x) in vals.iter() {
                m.vals.insert(v, x);
            }
            Rc::new(m)
        }))
    }
    fn fork_prof(&mut self, st: &State, what: &str) {
        if self.cfg.prof {
            let fr = st.frames.last().unwrap();
            let k = format!("FORK {} {} {}", what, short(&fr.f.name), fr.f.blocks[fr.block as usize].label);
            *self.prof.entry(k).or_insert(0) += 1;
        }
    }
    /// Decide a condition, forking when both outcomes are possible. The alternative state
    /// re-executes the current instruction.
    fn decide(&mut self, st: &mut State, c: E, what: &str) -> R<bool> {
        let c = self.simp(st, c);
        if let Some(v) = self.cx.cv(c) {
            return Ok(v == 1);
        }
        let v = self.cx.eval(c, &st.model) == 1;
        let nc = self.cx.not(c);
        let (mine, other) = if v { (c, nc) } else { (nc, c) };
        match self.sat(st, other)? {
            None => {
                self.learn(st, mine, true);
            }
            Some(m) => {
                self.fork_prof(st, what);
                let mut o = st.clone();
                o.forks += 1;
                o.model = m;
                self.assume(&mut o, other);
                self.work.push(o);
                st.forks += 1;
                self.assume(st, mine);
            }
        }
        Ok(v)
    }
    /// Force a value to be concrete, forking over the alternatives.
    fn conc(&mut self, st: &mut State, e: E, what: &str) -> R<u128> {
        let e = self.simp(st, e);
        if let Some(v) = self.cx.cv(e) {
            return Ok(v);
        }
        let v = self.cx.eval(e, &st.model);
        let k = self.cx.con(self.cx.w(e), v);
        let c = self.cx.eq(e, k);
        let b = self.decide(st, c, what)?;
        assert!(b);
        Ok(v)
    }

    // ------------------------------------------------------------ memory
    fn alloc(&mut self, st: &mut State, size: u64, align: u64, kind: Kind, fill: u32) -> u64 {
        let a = align.max(16);
        let base = (st.next + a - 1) / a * a;
        st.next = base + size + 32;
        st.mem.push((base, Some(Rc::new(Obj::new(base, size, kind, fill)))));
        base
    }
    fn kill(&mut self, st: &mut State, base: u64) {
        if let Ok(i) = st.mem.binary_search_by(|x| x.0.cmp(&base)) {
            st.mem[i].1 = None;
            st.dead += 1;
            if st.dead > 64 && st.dead * 2 > st.mem.len() {
                st.mem.retain(|x| x.1.is_some());
                st.dead = 0;
            }
        }
    }
    fn global_obj(&mut self, g: u32) -> Rc<Obj> {
        if let Some(o) = self.gcache.get(&g) {
            return o.clone();
        }
        let (addr, size, c) = {
            let gl = &self.m.globals[g as usize];
            (gl.addr, gl.size, gl.constant)
        };
        let mut o = Obj::new(addr, size, if c { Kind::Const } else { Kind::Global }, 0);
        if let Some(v) = self.m.global_init(&mut self.cx, g) {
            let ty = self.m.globals[g as usize].ty.clone();
            self.init_obj(&mut o, 0, &ty, &v);
        }
        let o = Rc::new(o);
        self.gcache.insert(g, o.clone());
        o
    }
    fn init_obj(&mut self, o: &mut Obj, off: u64, ty: &Ty, v: &Val) {
        match v {
            Val::Undef => {}
            Val::I(e) => {
                let n = ty.store();
                let k = self.cx.cv(*e).unwrap();
                for i in 0..n {
                    o.set(off + i, ((k >> (8 * i)) & 0xff) as u32);
                }
            }
            Val::Agg(vs) => {
                for (i, x) in vs.iter().enumerate() {
                    let (fo, ft) = ty.field_off(i as u64);
                    self.init_obj(o, off + fo, &ft, x);
                }
            }
        }
    }
    /// Object containing `addr` (end inclusive is not considered inside unless size is 0).
    fn find(&mut self, st: &State, addr: u64) -> Option<Rc<Obj>> {
        if addr >= HEAP_BASE {
            let i = match st.mem.binary_search_by(|x| x.0.cmp(&addr)) {
                Ok(i) => i,
                Err(0) => return None,
                Err(i) => i - 1,
            };
            let o = st.mem[i].1.as_ref()?;
            if addr < o.base + o.size.max(1) {
                return Some(o.clone());
            }
            return None;
        }
        if addr >= GLOBAL_BASE {
            let gs = &self.m.globals;
            let i = gs.partition_point(|g| g.addr <= addr);
            if i == 0 {
                return None;
            }
            let g = (i - 1) as u32;
            let gl = &gs[g as usize];
            if addr < gl.addr + gl.size.max(1) {
                if let Some(o) = st.gover.get(&g) {
                    return Some(o.clone());
                }
                return Some(self.global_obj(g));
            }
        }
        None
    }
    fn obj_mut<'a>(&mut self, st: &'a mut State, addr: u64) -> R<&'a mut Obj> {
        if addr >= HEAP_BASE {
            let i = match st.mem.binary_search_by(|x| x.0.cmp(&addr)) {
                Ok(i) => i,
                Err(i) => i - 1,
            };
            return Ok(Rc::make_mut(st.mem[i].1.as_mut().unwrap()));
        }
        let gs = &self.m.globals;
        let g = (gs.partition_point(|g| g.addr <= addr) - 1) as u32;
        if gs[g as usize].constant {
            return Err(End::Viol("memory".into(), "memory:constwrite".into(), "write to constant memory".into()));
        }
        if !st.gover.contains_key(&g) {
            let o = self.global_obj(g);
            Rc::make_mut(&mut st.gover).insert(g, o);
        }
        Ok(Rc::make_mut(Rc::make_mut(&mut st.gover).get_mut(&g).unwrap()))
    }
    fn oob(&self, what: &str, addr: u64, n: u64) -> End {
        End::Viol("memory".into(), format!("memory:{}", what), format!("invalid {} of {} bytes at {:#x}", what, n, addr))
    }
    /// Check an access of constant address. Returns the object.
    fn access(&mut self, st: &mut State, addr: u64, n: u64, what: &str) -> R<Rc<Obj>> {
        let o = match self.find(st, addr) {
            Some(o) => o,
            None => return Err(self.oob(what, addr, n)),
        };
        if addr + n > o.base + o.size {
            return Err(self.oob(what, addr, n));
        }
        if let Some(se) = o.size_e {
            let need = self.cx.con(64, (addr + n - o.base) as u128);
            let ok = self.cx.ule(need, se);
            if !self.decide(st, ok, "symsize")? {
                return Err(self.oob(what, addr, n));
            }
        }
        if o.kind == Kind::Phantom && n > 0 {
            return Err(End::Error(format!("{} of phantom memory", what)));
        }
        Ok(o)
    }
    fn byte(&mut self, b: u32) -> E {
        if b == UNINIT {
            0
        } else {
            b
        }
    }
    fn join(&mut self, bs: &[u32], ty_bits: u8) -> Val {
        if bs.iter().all(|&b| b == UNINIT) {
            return Val::Undef;
        }
        let mut k: u128 = 0;
        let mut all = true;
        for (i, &b) in bs.iter().enumerate() {
            if b < 256 {
                k |= (b as u128) << (8 * i);
            } else if b != UNINIT {
                all = false;
                break;
            }
        }
        let w = (bs.len() * 8) as u8;
        let e = if all {
            self.cx.con(w, k)
        } else {
            let mut acc = self.byte(bs[bs.len() - 1]);
            for &b in bs[..bs.len() - 1].iter().rev() {
                let b = self.byte(b);
                acc = self.cx.concat(acc, b);
            }
            acc
        };
        Val::I(if ty_bits < w { self.cx.trunc(e, ty_bits) } else { e })
    }
    fn load_scalar_at(&mut self, o: &Obj, off: u64, n: u64, bits: u8) -> Val {
        let mut bs = [0u32; 16];
        for i in 0..n {
            bs[i as usize] = o.get(off + i);
        }
        self.join(&bs[..n as usize], bits)
    }
    fn load(&mut self, st: &mut State, ty: &Ty, addr: E) -> R<Val> {
        match ty {
            Ty::Struct(f, _) => {
                let mut v = vec![];
                for i in 0..f.len() {
                    let (o, t) = ty.field_off(i as u64);
                    let oc = self.cx.con(64, o as u128);
                    let a = self.cx.add(addr, oc);
                    v.push(self.load(st, &t, a)?);
                }
                return Ok(Val::Agg(Rc::new(v)));
            }
            Ty::Vector(n, t) if matches!(**t, Ty::Int(1)) => {
                let _ = n;
                let bits = Ty::Int(*n as u8);
                let v = self.load(st, &bits, addr)?;
                return Ok(self.bitcast(&bits, ty, v));
            }
            Ty::Array(n, t) | Ty::Vector(n, t) => {
                let mut v = vec![];
                for i in 0..*n {
                    let oc = self.cx.con(64, (i * t.size()) as u128);
                    let a = self.cx.add(addr, oc);
                    v.push(self.load(st, t, a)?);
                }
                return Ok(Val::Agg(Rc::new(v)));
            }
            _ => {}
        }
        let n = ty.store();
        let bits = ty.bits();
        let addr = self.simp(st, addr);
        if let Some(a) = self.cx.cv(addr) {
            let a = a as u64;
            let o = self.access(st, a, n, "read")?;
            return Ok(self.load_scalar_at(&o, a - o.base, n, bits));
        }
        // symbolic address
        let (o, off) = self.resolve(st, addr, n, "read")?;
        let off = self.simp(st, off);
        if let Some(k) = self.cx.cv(off) {
            return Ok(self.load_scalar_at(&o, k as u64, n, bits));
        }
        if o.kind == Kind::Phantom {
            return Err(End::Error("read of phantom memory".into()));
        }
        // table lookup: off = idx * scale + c
        let (idx, scale, c) = self.affine(off);
        let count = if o.size < n + c { 0 } else { (o.size - n - c) / scale + 1 };
        let (rlo, rhi) = self.cx.rng[idx as usize];
        let hi = rhi.min(count.saturating_sub(1) as u128) as u64;
        let lo = rlo.min(hi as u128) as u64;
        if count > 0 && hi - lo < 4096 && (o.kind == Kind::Const || hi - lo <= 256) {
            let mut leaves = vec![];
            for i in 0..=hi {
                let j = i.max(lo);
                let v = self.load_scalar_at(&o, c + j * scale, n, bits);
                leaves.push(match v {
                    Val::I(e) => e,
                    _ => self.cx.con(bits, 0),
                });
            }
            return Ok(Val::I(self.table(idx, &leaves)));
        }
        let k = self.conc(st, off, "readaddr")? as u64;
        Ok(self.load_scalar_at(&o, k, n, bits))
    }
    fn table(&mut self, idx: E, leaves: &[E]) -> E {
        // binary decision tree over the index bits; out-of-range indices are infeasible
        let mut k = 0;
        while (1usize << k) < leaves.len() {
            k += 1;
        }
        fn go(cx: &mut Ctx, idx: E, bit: i32, base: usize, leaves: &[E]) -> E {
            if base >= leaves.len() {
                return *leaves.last().unwrap();
            }
            if bit < 0 {
                return leaves[base];
            }
            let lo = go(cx, idx, bit - 1, base, leaves);
            let hb = base | (1 << bit);
            if hb >= leaves.len() {
                return lo;
            }
            let hi = go(cx, idx, bit - 1, hb, leaves);
            if lo == hi {
                return lo;
            }
            if bit as u8 >= cx.w(idx) {
                return lo;
            }
            let b = cx.extract(idx, bit as u8, 1);
            cx.ite(b, hi, lo)
        }
        go(&mut self.cx, idx, k - 1, 0, leaves)
    }
    fn affine(&mut self, off: E) -> (E, u64, u64) {
        let n = self.cx.n(off);
        match n.op {
            Op::Add => {
                if let Some(c) = self.cx.cv(n.b) {
                    let (i, s, c2) = self.affine(n.a);
                    return (i, s, c2 + c as u64);
                }
            }
            Op::Mul => {
                if let Some(k) = self.cx.cv(n.b) {
                    // only when the product cannot wrap
                    let hi = self.cx.rng[n.a as usize].1;
                    if hi.checked_mul(k).map(|x| x <= u64::MAX as u128).unwrap_or(false) {
                        return (n.a, k as u64, 0);
                    }
                }
            }
            Op::Concat => {
                if self.cx.cv(n.b) == Some(0) {
                    let wl = self.cx.w(n.b);
                    if wl < 16 {
                        let i = self.cx.zext(n.a, 64);
                        return (i, 1 << wl, 0);
                    }
                }
            }
            Op::ZExt => {
                let m = self.cx.n(n.a);
                if m.op == Op::Concat && self.cx.cv(m.b) == Some(0) && self.cx.w(m.b) < 16 {
                    let wl = self.cx.w(m.b);
                    let i = self.cx.zext(m.a, 64);
                    return (i, 1 << wl, 0);
                }
            }
            _ => {}
        }
        (off, 1, 0)
    }
    /// Find the object a symbolic address points into (forking over objects).
    fn resolve(&mut self, st: &mut State, addr: E, n: u64, what: &str) -> R<(Rc<Obj>, E)> {
        let a = self.cx.eval(addr, &st.model) as u64;
        let o = match self.find(st, a) {
            Some(o) => o,
            None => return Err(self.oob(what, a, n)),
        };
        if a + n > o.base + o.size {
            return Err(self.oob(what, a, n));
        }
        let b = self.cx.con(64, o.base as u128);
        let off = self.cx.sub(addr, b);
        let lim = self.cx.con(64, (o.size - n) as u128);
        let inb = self.cx.ule(off, lim);
        if !self.decide(st, inb, "object")? {
            return Err(self.oob(what, a, n));
        }
        if let Some(se) = o.size_e {
            let nn = self.cx.con(64, n as u128);
            let end = self.cx.add(off, nn);
            let ok = self.cx.ule(end, se);
            if !self.decide(st, ok, "symsize")? {
                return Err(self.oob(what, a, n));
            }
        }
        Ok((o, off))
    }
    fn store(&mut self, st: &mut State, ty: &Ty, v: Val, addr: E) -> R<()> {
        match ty {
            Ty::Vector(n, t) if matches!(**t, Ty::Int(1)) => {
                let bits = Ty::Int(*n as u8);
                let v = self.bitcast(ty, &bits, v);
                return self.store(st, &bits, v, addr);
            }
            Ty::Struct(..) | Ty::Array(..) | Ty::Vector(..) => {
                let cnt = match ty {
                    Ty::Struct(f, _) => f.len() as u64,
                    Ty::Array(n, _) | Ty::Vector(n, _) => *n,
                    _ => 0,
                };
                for i in 0..cnt {
                    let (o, t) = ty.field_off(i);
                    let oc = self.cx.con(64, o as u128);
                    let a = self.cx.add(addr, oc);
                    let x = match &v {
                        Val::Agg(vs) => vs[i as usize].clone(),
                        _ => Val::Undef,
                    };
                    self.store(st, &t, x, a)?;
                }
                return Ok(());
            }
            _ => {}
        }
        let n = ty.store();
        let addr = self.simp(st, addr);
        let a = match self.cx.cv(addr) {
            Some(a) => a as u64,
            None => {
                let (o, off) = self.resolve(st, addr, n, "write")?;
                if n == 1 {
                    if let Val::I(b) = &v {
                        let b = if self.cx.w(*b) == 8 { *b } else { self.cx.zext(*b, 8) };
                        if self.store_byte_sym(st, &o, off, b)? {
                            return Ok(());
                        }
                    }
                }
                o.base + self.conc(st, off, "writeaddr")? as u64
            }
        };
        let o = self.access(st, a, n, "write")?;
        let off = a - o.base;
        drop(o);
        let mut bs = [UNINIT; 16];
        match v {
            Val::Undef => {}
            Val::I(mut e) => {
                let w = self.cx.w(e);
                if w as u64 != n * 8 {
                    e = self.cx.zext(e, (n * 8) as u8);
                }
                if let Some(k) = self.cx.cv(e) {
                    for i in 0..n {
                        bs[i as usize] = ((k >> (8 * i)) & 0xff) as u32;
                    }
                } else {
                    for i in 0..n {
                        bs[i as usize] = self.cx.extract(e, (8 * i) as u8, 8);
                    }
                }
            }
            Val::Agg(_) => panic!("agg store"),
        }
        let om = self.obj_mut(st, a)?;
        for i in 0..n {
            om.set(off + i, bs[i as usize]);
        }
        Ok(())
    }
    /// A byte written to a symbolic (already bounds-checked) place of one object, if few bytes can change.
    fn store_byte_sym(&mut self, st: &mut State, o: &Rc<Obj>, off: E, b: E) -> R<bool> {
        if o.kind == Kind::Phantom || o.kind == Kind::Const || self.cx.cv(off).is_some() {
            return Ok(false);
        }
        let (lo, hi) = self.cx.rng[off as usize];
        let end = o.size.min(hi.saturating_add(1).min(1 << 40) as u64);
        let (mut i, mut mixed, mut fresh) = (lo.min(end as u128) as u64, vec![], vec![]);
        while i < end {
            let left = (end - i).min(PG as u64 - i % PG as u64);
            if let Page::Fill(f) = &o.pages[i as usize / PG] {
                if *f == b {
                    i += left;
                    continue;
                }
                if *f == UNINIT {
                    fresh.push((i, left));
                    i += left;
                    continue;
                }
            }
            let old = o.get(i);
            if old == UNINIT {
                fresh.push((i, 1));
            } else if old != b {
                mixed.push((i, old));
                if mixed.len() > 64 {
                    return Ok(false);
                }
            }
            i += 1;
        }
        for (i, old) in mixed.iter_mut() {
            let k = self.cx.con(64, *i as u128);
            let c = self.cx.eq(k, off);
            *old = self.cx.ite(c, b, *old);
        }
        let om = self.obj_mut(st, o.base)?;
        for (i, n) in fresh {
            om.fill(i, n, b);
        }
        for (i, b) in mixed {
            om.set(i, b);
        }
        Ok(true)
    }
    fn conc_addr(&mut self, st: &mut State, a: E, what: &str) -> R<u64> {
        Ok(self.conc(st, a, what)? as u64)
    }
    /// A memset of symbolic length inside one object: written without choosing a length.
    fn memset_sym(&mut self, st: &mut State, a: E, n: E, v: E) -> R<bool> {
        let n = self.simp(st, n);
        let hi = self.cx.rng[n as usize].1;
        if self.cx.cv(n).is_some() {
            return Ok(false);
        }
        if hi > 1 << 17 {
            // the range of the expression is wide, but perhaps not on this path
            let k = self.cx.con(64, 1 << 17);
            let big = self.cx.ult(k, n);
            if self.decide(st, big, "memsetbig")? {
                return Ok(false);
            }
        }
        let p = self.conc_addr(st, a, "memsetdst")?;
        let o = match self.find(st, p) {
            Some(o) if o.kind != Kind::Phantom => o,
            _ => return Ok(false),
        };
        let off = p - o.base;
        let room = match o.size_e {
            Some(e) => e,
            None => self.cx.con(64, o.size as u128),
        };
        let k = self.cx.con(64, off as u128);
        let end = self.cx.add(n, k);
        let ok = self.cx.ule(end, room);
        if !self.decide(st, ok, "memsetroom")? {
            return Ok(false);
        }
        let top = hi.min((o.size - off) as u128) as u64;
        let om = self.obj_mut(st, p)?;
        let (mut i, to) = (off as usize, (off + top) as usize);
        let mut mixed = vec![];
        while i < to {
            if i % PG == 0 && i + PG <= to && matches!(om.pages[i / PG], Page::Fill(UNINIT)) {
                om.pages[i / PG] = Page::Fill(v);
                i += PG;
                continue;
            }
            let old = om.get(i as u64);
            if old == UNINIT {
                om.set(i as u64, v);
            } else if old != v {
                mixed.push((i as u64, old));
            }
            i += 1;
        }
        for (i, old) in mixed {
            let k = self.cx.con(64, (i - off) as u128);
            let c = self.cx.ult(k, n);
            let b = self.cx.ite(c, v, old);
            self.obj_mut(st, p)?.set(i, b);
        }
        Ok(true)
    }
    fn memcpy(&mut self, st: &mut State, d: E, s: E, n: E) -> R<()> {
        let n = self.conc(st, n, "memcpylen")? as u64;
        if n == 0 {
            return Ok(());
        }
        let d = self.conc_addr(st, d, "memcpydst")?;
        let s = self.conc_addr(st, s, "memcpysrc")?;
        let so = self.access(st, s, n, "read")?;
        self.access(st, d, n, "write")?;
        let soff = s - so.base;
        let om = self.obj_mut(st, d)?;
        let doff = d - om.base;
        if om.base == so.base && doff > soff && doff < soff + n {
            // overlapping: `so` is a snapshot (Rc) taken before mutation, so copying is safe
        }
        let mut i = 0;
        while i < n {
            let (sp, dp) = ((soff + i) as usize, (doff + i) as usize);
            if sp % PG == 0 && dp % PG == 0 && n - i >= PG as u64 {
                om.pages[dp / PG] = so.pages[sp / PG].clone();
                i += PG as u64;
            } else {
                om.set(doff + i, so.get(soff + i));
                i += 1;
            }
        }
        Ok(())
    }

    // ------------------------------------------------------------ values
    #[inline]
    fn val(&self, st: &State, o: &Opnd) -> Val {
        match o {
            Opnd::C(v) => v.clone(),
            Opnd::R(r) => st.frames.last().unwrap().regs[*r as usize].clone(),
        }
    }
    #[inline]
    fn set(&self, st: &mut State, r: u32, v: Val) {
        let f = st.frames.last_mut().unwrap();
        Rc::make_mut(f).regs[r as usize] = v;
    }
    fn sc(&mut self, st: &State, o: &Opnd, w: u8) -> E {
        match self.val(st, o) {
            Val::I(e) => e,
            Val::Undef => self.cx.con(w, 0),
            Val::Agg(_) => panic!("scalar expected"),
        }
    }
    fn flat(&mut self, v: &Val, ty: &Ty) -> E {
        match (v, ty) {
            (Val::I(e), _) => *e,
            (Val::Undef, Ty::Int(_)) | (Val::Undef, Ty::Ptr) | (Val::Undef, Ty::Float(_)) => self.cx.con(ty.bits(), 0),
            (_, Ty::Vector(n, t)) => {
                let mut acc: Option<E> = None;
                for i in 0..*n {
                    let x = match v {
                        Val::Agg(vs) => vs[i as usize].clone(),
                        _ => Val::Undef,
                    };
                    let e = self.flat(&x, t);
                    acc = Some(match acc {
                        None => e,
                        Some(a) => self.cx.concat(e, a),
                    });
                }
                acc.unwrap()
            }
            _ => panic!("flat {:?} {:?}", v, ty),
        }
    }
    fn bitcast(&mut self, from: &Ty, to: &Ty, v: Val) -> Val {
        let e = self.flat(&v, from);
        match to {
            Ty::Vector(n, t) => {
                let w = t.bits();
                let mut vs = vec![];
                for i in 0..*n {
                    vs.push(Val::I(self.cx.extract(e, (i as u8) * w, w)));
                }
                Val::Agg(Rc::new(vs))
            }
            _ => Val::I(e),
        }
    }
    fn bin(&mut self, k: Bin, a: E, b: E) -> E {
        let c = &mut self.cx;
        match k {
            Bin::Add => c.add(a, b),
            Bin::Sub => c.sub(a, b),
            Bin::Mul => c.mul(a, b),
            Bin::UDiv => c.udiv(a, b),
            Bin::URem => c.urem(a, b),
            Bin::SDiv => c.sdiv(a, b),
            Bin::SRem => c.srem(a, b),
            Bin::Shl => c.shl(a, b),
            Bin::LShr => c.lshr(a, b),
            Bin::AShr => c.ashr(a, b),
            Bin::And => c.and(a, b),
            Bin::Or => c.or(a, b),
            Bin::Xor => c.xor(a, b),
        }
    }
    fn icmp(&mut self, p: Pred, a: E, b: E) -> E {
        let c = &mut self.cx;
        match p {
            Pred::Eq => c.eq(a, b),
            Pred::Ne => c.ne(a, b),
            Pred::Ult => c.ult(a, b),
            Pred::Ule => c.ule(a, b),
            Pred::Ugt => c.ult(b, a),
            Pred::Uge => c.ule(b, a),
            Pred::Slt => c.slt(a, b),
            Pred::Sle => c.sle(a, b),
            Pred::Sgt => c.slt(b, a),
            Pred::Sge => c.sle(b, a),
        }
    }
    fn lift2(&mut self, a: Val, b: Val, f: &mut dyn FnMut(&mut Self, E, E) -> E) -> Val {
        match (a, b) {
            (Val::I(x), Val::I(y)) => Val::I(f(self, x, y)),
            (Val::Undef, Val::I(y)) => {
                let z = self.cx.con(self.cx.w(y), 0);
                Val::I(f(self, z, y))
            }
            (Val::I(x), Val::Undef) => {
                let z = self.cx.con(self.cx.w(x), 0);
                Val::I(f(self, x, z))
            }
            (Val::Agg(x), Val::Agg(y)) => {
                let mut v = vec![];
                for i in 0..x.len() {
                    v.push(self.lift2(x[i].clone(), y[i].clone(), f));
                }
                Val::Agg(Rc::new(v))
            }
            _ => Val::Undef,
        }
    }
    fn select(&mut self, c: Val, a: Val, b: Val) -> Val {
        match c {
            Val::I(c) => match self.cx.cv(c) {
                Some(1) => a,
                Some(_) => b,
                None => match (a, b) {
                    (Val::I(x), Val::I(y)) => Val::I(self.cx.ite(c, x, y)),
                    (Val::Undef, y) => y,
                    (x, Val::Undef) => x,
                    (Val::Agg(x), Val::Agg(y)) => {
                        let mut v = vec![];
                        for i in 0..x.len() {
                            v.push(self.select(Val::I(c), x[i].clone(), y[i].clone()));
                        }
                        Val::Agg(Rc::new(v))
                    }
                    _ => panic!("select"),
                },
            },
            Val::Agg(cs) => {
                let mut v = vec![];
                for i in 0..cs.len() {
                    let x = match &a {
                        Val::Agg(x) => x[i].clone(),
                        _ => Val::Undef,
                    };
                    let y = match &b {
                        Val::Agg(x) => x[i].clone(),
                        _ => Val::Undef,
                    };
                    v.push(self.select(cs[i].clone(), x, y));
                }
                Val::Agg(Rc::new(v))
            }
            Val::Undef => b,
        }
    }
    fn cast(&mut self, k: Cast, from: &Ty, to: &Ty, v: Val) -> Val {
        if k == Cast::Bitcast {
            return match (from, to) {
                (Ty::Vector(..), _) | (_, Ty::Vector(..)) => self.bitcast(from, to, v),
                _ => v,
            };
        }
        match (v, to) {
            (Val::Agg(vs), Ty::Vector(_, t)) => {
                let ft = match from {
                    Ty::Vector(_, t) => (**t).clone(),
                    _ => panic!(),
                };
                Val::Agg(Rc::new(vs.iter().map(|x| self.cast(k, &ft, t, x.clone())).collect()))
            }
            (Val::Undef, _) => Val::I(self.cx.con(to.bits(), 0)),
            (Val::I(e), _) => {
                let w = to.bits();
                let fw = self.cx.w(e);
                Val::I(match k {
                    Cast::Zext => self.cx.zext(e, w),
                    Cast::Sext => self.cx.sext(e, w),
                    Cast::Trunc => self.cx.trunc(e, w),
                    _ => {
                        if w < fw {
                            self.cx.trunc(e, w)
                        } else {
                            self.cx.zext(e, w)
                        }
                    }
                })
            }
            _ => panic!("cast"),
        }
    }

    // ------------------------------------------------------------ main loop
    fn jump(&mut self, st: &mut State, to: u32) {
        let fr = st.frames.last().unwrap();
        let from = fr.block;
        let f = fr.f.clone();
        let blk = &f.blocks[to as usize];
        if !blk.phis.is_empty() {
            let mut vals = Vec::with_capacity(blk.phis.len());
            for (d, inc) in &blk.phis {
                let o = &inc.iter().find(|x| x.0 == from).unwrap_or_else(|| panic!("phi")).1;
                vals.push((*d, self.val(st, o)));
            }
            let fm = Rc::make_mut(st.frames.last_mut().unwrap());
            for (d, v) in vals {
                fm.regs[d as usize] = v;
            }
        }
        let fm = Rc::make_mut(st.frames.last_mut().unwrap());
        fm.block = to;
        fm.ip = 0;
    }

    fn run_state(&mut self, st: &mut State) -> End {
        loop {
            st.steps += 1;
            self.instrs += 1;
            if st.steps > self.cfg.max_steps {
                return End::Viol("nonterm".into(), "nonterm".into(), format!("no termination within {} instructions", self.cfg.max_steps));
            }
            if self.instrs & 0x3fff == 0 && self.t0.elapsed().as_secs_f64() > self.cfg.max_time {
                self.timed_out = true;
                return End::Killed;
            }
            match self.step(st) {
                Ok(true) => {}
                Ok(false) => return End::Done,
                Err(e) => return e,
            }
        }
    }

    fn next(&self, st: &mut State) {
        Rc::make_mut(st.frames.last_mut().unwrap()).ip += 1;
    }

    fn step(&mut self, st: &mut State) -> R<bool> {
        let fr = st.frames.last().unwrap();
        let f = fr.f.clone();
        let inst = &f.blocks[fr.block as usize].insts[fr.ip as usize];
        if self.cfg.trace {
            eprintln!("{} {}:{} {:?}", short(&f.name), f.blocks[fr.block as usize].label, fr.ip, inst);
        }
        match inst {
            Inst::Bin(k, d, a, b) => {
                let (x, y) = (self.val(st, a), self.val(st, b));
                let k = *k;
                let v = self.lift2(x, y, &mut |s, p, q| s.bin(k, p, q));
                self.set(st, *d, v);
            }
            Inst::Icmp(p, d, a, b) => {
                let (x, y) = (self.val(st, a), self.val(st, b));
                let p = *p;
                let mut v = self.lift2(x, y, &mut |s, a, b| s.icmp(p, a, b));
                if let Val::Undef = v {
                    v = Val::I(self.cx.con(1, 0));
                }
                self.set(st, *d, v);
            }
            Inst::Cast(k, d, from, to, a) => {
                let v = self.val(st, a);
                let v = self.cast(*k, from, to, v);
                self.set(st, *d, v);
            }
            Inst::Load(d, ty, p) => {
                let a = self.sc(st, p, 64);
                let v = self.load(st, ty, a)?;
                self.set(st, *d, v);
            }
            Inst::Store(ty, v, p) => {
                let a = self.sc(st, p, 64);
                let v = self.val(st, v);
                self.store(st, ty, v, a)?;
            }
            Inst::Gep(d, base, off, dynv) => {
                let mut a = self.sc(st, base, 64);
                if *off != 0 {
                    let k = self.cx.con(64, *off as u128);
                    a = self.cx.add(a, k);
                }
                for (o, sc) in dynv {
                    let i = self.sc(st, o, 64);
                    let i = self.cx.sext(i, 64);
                    let s = self.cx.con(64, *sc as u128);
                    let m = self.cx.mul(i, s);
                    a = self.cx.add(a, m);
                }
                self.set(st, *d, Val::I(a));
            }
            Inst::Alloca(d, size, al) => {
                let b = self.alloc(st, *size, *al, Kind::Stack, UNINIT);
                let k = self.cx.con(64, b as u128);
                Rc::make_mut(st.frames.last_mut().unwrap()).allocas.push(b);
                self.set(st, *d, Val::I(k));
            }
            Inst::Select(d, c, a, b) => {
                let mut c = self.val(st, c);
                if let Val::I(e) = c {
                    if self.cx.cv(e).is_none() {
                        c = Val::I(self.simp(st, e));
                    }
                }
                let (x, y) = (self.val(st, a), self.val(st, b));
                let v = self.select(c, x, y);
                self.set(st, *d, v);
            }
            Inst::Copy(d, a, ty) => {
                let mut v = self.val(st, a);
                if let (Val::Undef, Ty::Int(_) | Ty::Ptr) = (&v, ty) {
                    v = Val::I(self.cx.con(ty.bits(), 0));
                }
                self.set(st, *d, v);
            }
            Inst::ExtractV(d, a, ix) => {
                let mut v = self.val(st, a);
                for i in ix {
                    v = match v {
                        Val::Agg(x) => x[*i as usize].clone(),
                        _ => Val::Undef,
                    };
                }
                self.set(st, *d, v);
            }
            Inst::InsertV(d, ty, a, b, ix) => {
                let v = self.val(st, a);
                let x = self.val(st, b);
                fn ins(v: Val, ty: &Ty, ix: &[u32], x: Val) -> Val {
                    if ix.is_empty() {
                        return x;
                    }
                    let v = if let Val::Undef = v { undef(ty) } else { v };
                    match v {
                        Val::Agg(mut a) => {
                            let (_, t) = ty.field_off(ix[0] as u64);
                            let m = Rc::make_mut(&mut a);
                            let old = std::mem::replace(&mut m[ix[0] as usize], Val::Undef);
                            m[ix[0] as usize] = ins(old, &t, &ix[1..], x);
                            Val::Agg(a)
                        }
                        _ => panic!("insertvalue"),
                    }
                }
                let v = ins(v, ty, ix, x);
                self.set(st, *d, v);
            }
            Inst::ExtractE(d, a, i) => {
                let v = self.val(st, a);
                let i = self.sc(st, i, 64);
                let i = self.conc(st, i, "elem")? as usize;
                let r = match v {
                    Val::Agg(x) => x[i].clone(),
                    _ => Val::Undef,
                };
                self.set(st, *d, r);
            }
            Inst::InsertE(d, ty, a, b, i) => {
                let v = self.val(st, a);
                let x = self.val(st, b);
                let i = self.sc(st, i, 64);
                let i = self.conc(st, i, "elem")? as usize;
                let v = if let Val::Undef = v { undef(ty) } else { v };
                if let Val::Agg(mut a) = v {
                    Rc::make_mut(&mut a)[i] = x;
                    self.set(st, *d, Val::Agg(a));
                }
            }
            Inst::Shuffle(d, ty, a, b, mk) => {
                let x = self.val(st, a);
                let y = self.val(st, b);
                let n = match ty {
                    Ty::Vector(n, _) => *n as i32,
                    _ => panic!(),
                };
                let g = |v: &Val, i: usize| match v {
                    Val::Agg(x) => x[i].clone(),
                    _ => Val::Undef,
                };
                let r = mk
                    .iter()
                    .map(|&i| {
                        if i < 0 {
                            Val::Undef
                        } else if i < n {
                            g(&x, i as usize)
                        } else {
                            g(&y, (i - n) as usize)
                        }
                    })
                    .collect();
                self.set(st, *d, Val::Agg(Rc::new(r)));
            }
            Inst::Rmw(d, op, ty, p, v) => {
                let a = self.sc(st, p, 64);
                let old = self.load(st, ty, a)?;
                let x = self.sc(st, v, ty.bits());
                let o = match old {
                    Val::I(e) => e,
                    _ => self.cx.con(ty.bits(), 0),
                };
                let n = match op.as_str() {
                    "xchg" => x,
                    "add" => self.cx.add(o, x),
                    "sub" => self.cx.sub(o, x),
                    "and" => self.cx.and(o, x),
                    "or" => self.cx.or(o, x),
                    "xor" => self.cx.xor(o, x),
                    _ => return Err(End::Error(format!("atomicrmw {}", op))),
                };
                self.store(st, ty, Val::I(n), a)?;
                self.set(st, *d, Val::I(o));
            }
            Inst::CmpXchg(d, ty, p, c, n) => {
                let a = self.sc(st, p, 64);
                let old = match self.load(st, ty, a)? {
                    Val::I(e) => e,
                    _ => self.cx.con(ty.bits(), 0),
                };
                let c = self.sc(st, c, ty.bits());
                let n = self.sc(st, n, ty.bits());
                let e = self.cx.eq(old, c);
                let nv = self.cx.ite(e, n, old);
                self.store(st, ty, Val::I(nv), a)?;
                self.set(st, *d, Val::Agg(Rc::new(vec![Val::I(old), Val::I(e)])));
            }
            Inst::Nop => {}
            Inst::Br(b) => {
                self.jump(st, *b);
                return Ok(true);
            }
            Inst::CondBr(c, a, b) => {
                let e = self.sc(st, c, 1);
                let t = self.decide(st, e, "br")?;
                self.jump(st, if t { *a } else { *b });
                return Ok(true);
            }
            Inst::Switch(v, d, cs) => {
                let w = match self.val(st, v) {
                    Val::I(e) => self.cx.w(e),
                    _ => 32,
                };
                let e = self.sc(st, v, w);
                let e = self.simp(st, e);
                if let Some(k) = self.cx.cv(e) {
                    let t = cs.iter().find(|c| c.0 & mask(w) == k).map(|c| c.1).unwrap_or(*d);
                    self.jump(st, t);
                    return Ok(true);
                }
                let k = self.cx.eval(e, &st.model);
                let t = cs.iter().find(|c| c.0 & mask(w) == k).map(|c| c.1).unwrap_or(*d);
                // condition for going to t
                let mut hit = self.cx.fls();
                let mut any = self.cx.fls();
                for (c, b) in cs {
                    let kc = self.cx.con(w, *c);
                    let q = self.cx.eq(e, kc);
                    any = self.cx.or(any, q);
                    if *b == t {
                        hit = self.cx.or(hit, q);
                    }
                }
                if t == *d {
                    let n = self.cx.not(any);
                    hit = self.cx.or(hit, n);
                }
                let b = self.decide(st, hit, "switch")?;
                assert!(b);
                self.jump(st, t);
                return Ok(true);
            }
            Inst::Ret(v) => {
                let val = v.as_ref().map(|v| self.val(st, v));
                let fr = st.frames.pop().unwrap();
                for b in &fr.allocas {
                    self.kill(st, *b);
                }
                if st.frames.is_empty() {
                    return Ok(false);
                }
                if let (Some(r), Some(v)) = (fr.ret, val) {
                    self.set(st, r, v);
                }
                self.next(st);
                return Ok(true);
            }
            Inst::Unreachable => {
                return Err(End::Viol("unreachable".into(), format!("unreachable:{}", short(&f.name)), "reached code the compiler proved unreachable".into()));
            }
            Inst::Unsupported(s) => return Err(End::Error(format!("unsupported instruction {}", s))),
            Inst::Call(d, rt, callee, args) => {
                let id = match callee {
                    Callee::Fn(id) => *id,
                    Callee::Asm(s) => {
                        if s.trim_end() == "asm:" || s.is_empty() {
                            if let (Some(d), Some(a)) = (d, args.first()) {
                                let v = self.val(st, a);
                                self.set(st, *d, v);
                            }
                            self.next(st);
                            return Ok(true);
                        }
                        return Err(End::Error(format!("inline asm {}", s)));
                    }
                    Callee::Ind(o) => {
                        let a = self.sc(st, o, 64);
                        let a = self.conc(st, a, "icall")? as u64;
                        if a < FN_BASE || a >= FN_BASE + 16 * self.m.fns.len() as u64 || a % 16 != 0 {
                            return Err(End::Viol("memory".into(), "memory:call".into(), format!("call through bad pointer {:#x}", a)));
                        }
                        ((a - FN_BASE) / 16) as u32
                    }
                };
                let sp = self.sp[id as usize];
                if sp != Sp::None {
                    return self.special(st, id, sp, *d, rt, args);
                }
                let g = self.func(id);
                self.fn_seen.insert(id);
                if st.frames.len() > 400 {
                    return Err(End::Viol("nonterm".into(), "nonterm:stack".into(), "call depth exceeds 400".into()));
                }
                let mut regs = vec![Val::Undef; g.nregs as usize];
                for (i, a) in args.iter().enumerate() {
                    if i < g.nparams as usize {
                        regs[i] = self.val(st, a);
                    }
                }
                st.frames.push(Rc::new(Frame { f: g, block: 0, ip: 0, regs, allocas: vec![], ret: *d }));
                return Ok(true);
            }
        }
        self.next(st);
        Ok(true)
    }

    fn read_cstr(&mut self, st: &State, addr: u64, n: u64) -> String {
        let mut s = String::new();
        for i in 0..n.min(200) {
            if let Some(o) = self.find(st, addr + i) {
                let b = o.get(addr + i - o.base);
                if b < 256 {
                    s.push(b as u8 as char);
                }
            }
        }
        s
    }
    fn panic_info(&mut self, st: &State, args: &[Opnd]) -> (String, String) {
        let mut loc = String::new();
        let mut msg = String::new();
        for (i, a) in args.iter().enumerate().rev() {
            let v = match self.val(st, a) {
                Val::I(e) if self.cx.w(e) == 64 => match self.cx.cv(e) {
                    Some(v) => v as u64,
                    None => continue,
                },
                _ => continue,
            };
            if v < GLOBAL_BASE || v >= HEAP_BASE {
                continue;
            }
            let o = match self.find(st, v) {
                Some(o) => o,
                None => continue,
            };
            if o.size == 24 && loc.is_empty() && v == o.base {
                let g = |s: &mut Self, off: u64, n: u64| match s.load_scalar_at(&o, off, n, (n * 8) as u8) {
                    Val::I(e) => s.cx.cv(e).unwrap_or(0) as u64,
                    _ => 0,
                };
                let (p, n, l, c) = (g(self, 0, 8), g(self, 8, 8), g(self, 16, 4), g(self, 20, 4));
                if p >= GLOBAL_BASE && p < HEAP_BASE && n < 400 {
                    loc = format!("{}:{}:{}", self.read_cstr(st, p, n), l, c);
                    continue;
                }
            }
            if msg.is_empty() {
                // &str message with the length in the next argument
                if let Some(Val::I(e)) = args.get(i + 1).map(|x| self.val(st, x)) {
                    if let Some(n) = self.cx.cv(e) {
                        if n < 1000 {
                            msg = self.read_cstr(st, v, (n as u64).min(o.size));
                        }
                    }
                }
            }
        }
        (loc, msg)
    }

    fn malloc(&mut self, st: &mut State, size: E, align: u64, fill: u32) -> R<u64> {
        let size = self.simp(st, size);
        let lim = st.alloc_limit;
        if let Some(k) = self.cx.cv(size) {
            let k = k as u64;
            if k > lim {
                return Err(End::Viol("overalloc".into(), format!("overalloc:{}", self.site(st)), format!("allocation of {} bytes exceeds the limit of {}", k, lim)));
            }
            return Ok(self.alloc(st, k, align, Kind::Heap, fill));
        }
        let l = self.cx.con(64, lim as u128);
        let ok = self.cx.ule(size, l);
        let pending = self.work.len();
        let mut fits = self.decide(st, ok, "alloclimit")?;
        if fits && self.work.len() > pending {
            // Both sides are possible: the violating one first, since the other one goes on to enumerate sizes.
            let last = self.work.len() - 1;
            std::mem::swap(st, &mut self.work[last]);
            fits = false;
        }
        if !fits {
            let k = self.cx.eval(size, &st.model);
            return Err(End::Viol("overalloc".into(), format!("overalloc:{}", self.site(st)), format!("allocation of {} bytes exceeds the limit of {}", k, lim)));
        }
        let hi = self.cx.rng[size as usize].1.min(lim as u128) as u64;
        let b = self.alloc(st, hi, align, Kind::Heap, fill);
        let o = self.obj_mut(st, b)?;
        o.size_e = Some(size);
        Ok(b)
    }
    fn site(&self, st: &State) -> String {
        for f in st.frames.iter().rev() {
            if f.f.name.contains("async_zip") {
                return short(&f.f.name);
            }
        }
        short(&st.frames.last().unwrap().f.name)
    }
    fn input(&mut self, st: &mut State, w: u8) -> E {
        let i = st.nin;
        st.nin += 1;
        if let Some(c) = &self.cfg.concrete {
            let v = c.get(i).copied().unwrap_or(0);
            return self.cx.con(w, v);
        }
        // one variable per (input position, width): sibling paths share the name and the caches
        let key = format!("in{}_{}", i, w);
        let e = self.shared_var(&key, w);
        let vi = self.cx.n(e).a;
        st.inputs.push((vi, w));
        e
    }
    fn shared_var(&mut self, key: &str, w: u8) -> E {
        if let Some(p) = self.cx.vars.iter().position(|v| v.1 == key) {
            return self.cx.var_ref(p as u32);
        }
        self.cx.var(w, key)
    }

    fn special(&mut self, st: &mut State, id: u32, sp: Sp, d: Option<u32>, rt: &Ty, args: &[Opnd]) -> R<bool> {
        let name = self.m.fns[id as usize].name.clone();
        macro_rules! arg {
            ($i:expr) => {
                self.sc(st, &args[$i], 64)
            };
        }
        let mut ret: Option<Val> = None;
        match sp {
            Sp::U(w) => ret = Some(Val::I(self.input(st, w))),
            Sp::Fresh => {
                // an unconstrained value that is not a harness input (abstracted computation)
                let key = format!("fr{}_32", st.nfresh);
                st.nfresh += 1;
                ret = Some(Val::I(self.shared_var(&key, 32)));
            }
            Sp::Assume => {
                let c = self.sc(st, &args[0], 1);
                let c = self.simp(st, c);
                match self.sat(st, c)? {
                    None => return Err(End::Infeasible),
                    Some(m) => {
                        st.model = m;
                        self.assume(st, c);
                    }
                }
            }
            Sp::Assert => {
                let c = self.sc(st, &args[0], 1);
                let c = self.simp(st, c);
                let ide = self.sc(st, &args[1], 32);
                let aid = self.cx.cv(ide).unwrap_or(0) as u32;
                *self.asserts.entry(aid).or_insert(0) += 1;
                let nc = self.cx.not(c);
                let key = format!("assert:{}", aid);
                if self.cx.cv(c).is_none() && self.viols.iter().any(|v| v.key == key) {
                    // Violated on an earlier path: go on only where that costs nothing.
                    if self.cx.eval(c, &st.model) != 1 {
                        return Err(End::Killed);
                    }
                    self.assume(st, c);
                } else if let Some(m) = self.guess_or_sat(st, nc)? {
                    self.add_viol(st, &m, "assert".into(), key, format!("assertion {} fails", aid));
                    if self.viols.len() >= self.cfg.max_viol {
                        self.work.clear();
                        return Err(End::Killed);
                    }
                    if self.cx.eval(c, &st.model) != 1 {
                        return Err(End::Killed);
                    }
                    self.assume(st, c);
                } else if self.cx.cv(c).is_none() {
                    self.learn(st, c, true);
                }
            }
            Sp::Reach => {
                let e = self.sc(st, &args[0], 32);
                let k = self.cx.cv(e).unwrap_or(0) as u32;
                *self.reach.entry(k).or_insert(0) += 1;
            }
            Sp::Limit => {
                let e = arg!(0);
                st.alloc_limit = self.conc(st, e, "limit")? as u64;
            }
            Sp::Observe => {
                let e = arg!(0);
                st.observed.push(e);
            }
            Sp::Conc => {
                let e = arg!(0);
                let w = self.cx.w(e);
                let k = self.conc(st, e, "conc")?;
                ret = Some(Val::I(self.cx.con(w, k)));
            }
            Sp::IsEngine => {
                let w = rt.bits();
                ret = Some(Val::I(self.cx.con(w, 1)));
            }
            Sp::Phantom => {
                // phantom(len): memory of symbolic length whose contents must never be looked at
                let n = arg!(0);
                let n = self.simp(st, n);
                let hi = self.cx.rng[n as usize].1 as u64;
                let hi = hi.min(1 << 42);
                let b = self.alloc(st, hi, 4096, Kind::Phantom, 0);
                let o = self.obj_mut(st, b)?;
                if self.cx.cv(n).is_none() {
                    o.size_e = Some(n);
                }
                ret = Some(Val::I(self.cx.con(64, b as u128)));
            }
            Sp::Len => {
                // sym_is_phantom(ptr)
                let p = arg!(0);
                let p = self.conc(st, p, "phantom")? as u64;
                let ph = self.find(st, p).map(|o| o.kind == Kind::Phantom).unwrap_or(false);
                ret = Some(Val::I(self.cx.con(rt.bits(), ph as u128)));
            }
            Sp::Stop => return Err(End::Done),
            Sp::Malloc => {
                let n = arg!(0);
                let b = self.malloc(st, n, 16, UNINIT)?;
                ret = Some(Val::I(self.cx.con(64, b as u128)));
            }
            Sp::Calloc => {
                let (a, b) = (arg!(0), arg!(1));
                let n = self.cx.mul(a, b);
                let b = self.malloc(st, n, 16, 0)?;
                ret = Some(Val::I(self.cx.con(64, b as u128)));
            }
            Sp::Memalign => {
                let (p, al, n) = (arg!(0), arg!(1), arg!(2));
                let al = self.conc(st, al, "align")? as u64;
                let b = self.malloc(st, n, al, UNINIT)?;
                let k = self.cx.con(64, b as u128);
                self.store(st, &Ty::Ptr, Val::I(k), p)?;
                ret = Some(Val::I(self.cx.con(32, 0)));
            }
            Sp::Realloc => {
                let (p, n) = (arg!(0), arg!(1));
                let p = self.conc(st, p, "realloc")? as u64;
                let b = self.malloc(st, n, 16, UNINIT)?;
                if p != 0 {
                    let old = match self.find(st, p) {
                        Some(o) if o.base == p && o.kind == Kind::Heap => o,
                        _ => return Err(self.oob("realloc", p, 0)),
                    };
                    let no = self.obj_mut(st, b)?;
                    let n = old.size.min(no.size);
                    for i in 0..n {
                        no.set(i, old.get(i));
                    }
                    self.kill(st, p);
                }
                ret = Some(Val::I(self.cx.con(64, b as u128)));
            }
            Sp::Free => {
                let p = arg!(0);
                let p = self.conc(st, p, "free")? as u64;
                if p != 0 {
                    match self.find(st, p) {
                        Some(o) if o.base == p && o.kind == Kind::Heap => self.kill(st, p),
                        _ => return Err(self.oob("free", p, 0)),
                    }
                }
            }
            Sp::Bcmp | Sp::Memcmp => {
                let (a, b, n) = (arg!(0), arg!(1), arg!(2));
                let n = self.conc(st, n, "cmplen")? as u64;
                if n == 0 {
                    ret = Some(Val::I(self.cx.con(32, 0)));
                } else {
                    let a = self.conc_addr(st, a, "cmpaddr")?;
                    let b = self.conc_addr(st, b, "cmpaddr")?;
                    let oa = self.access(st, a, n, "read")?;
                    let ob = self.access(st, b, n, "read")?;
                    if sp == Sp::Bcmp {
                        let mut eq = self.cx.tru();
                        for i in 0..n {
                            let x = self.byte(oa.get(a - oa.base + i));
                            let y = self.byte(ob.get(b - ob.base + i));
                            let q = self.cx.eq(x, y);
                            eq = self.cx.and(eq, q);
                            if self.cx.cv(eq) == Some(0) {
                                break;
                            }
                        }
                        let ne = self.cx.not(eq);
                        ret = Some(Val::I(self.cx.zext(ne, 32)));
                    } else {
                        let mut r = self.cx.con(32, 0);
                        let (m1, p1) = (self.cx.con(32, u128::MAX), self.cx.con(32, 1));
                        for i in (0..n).rev() {
                            let x = self.byte(oa.get(a - oa.base + i));
                            let y = self.byte(ob.get(b - ob.base + i));
                            let q = self.cx.eq(x, y);
                            let l = self.cx.ult(x, y);
                            let s = self.cx.ite(l, m1, p1);
                            r = self.cx.ite(q, r, s);
                        }
                        ret = Some(Val::I(r));
                    }
                }
            }
            Sp::Memcpy | Sp::Memmove => {
                let (a, b, n) = (arg!(0), arg!(1), arg!(2));
                self.memcpy(st, a, b, n)?;
                if d.is_some() {
                    ret = Some(Val::I(a));
                }
            }
            Sp::Memset => {
                let (a, n) = (arg!(0), arg!(2));
                let v = self.sc(st, &args[1], 8);
                let v = self.cx.trunc(v, 8);
                let n = match self.memset_sym(st, a, n, v)? {
                    true => 0,
                    false => self.conc(st, n, "memsetlen")? as u64,
                };
                if n > 0 {
                    let p = self.conc_addr(st, a, "memsetdst")?;
                    self.access(st, p, n, "write")?;
                    let o = self.obj_mut(st, p)?;
                    let off = p - o.base;
                    o.fill(off, n, v);
                }
                if d.is_some() {
                    ret = Some(Val::I(a));
                }
            }
            Sp::Strlen => {
                let p = arg!(0);
                let p = self.conc_addr(st, p, "strlen")?;
                let mut n = 0;
                loop {
                    let o = self.access(st, p + n, 1, "read")?;
                    if o.get(p + n - o.base) == 0 {
                        break;
                    }
                    n += 1;
                }
                ret = Some(Val::I(self.cx.con(64, n as u128)));
            }
            Sp::Panic => {
                let (mut loc, mut msg) = self.panic_info(st, args);
                let what = short(&name);
                if loc.is_empty() {
                    loc = self.site(st);
                }
                if msg.is_empty() {
                    msg = what.clone();
                }
                return Err(End::Viol("panic".into(), format!("panic:{}", loc), format!("panic `{}` ({}) at {}", msg, what, loc)));
            }
            Sp::Abort => return Err(End::Viol("abort".into(), format!("abort:{}", self.site(st)), name)),
            Sp::Nop => {
                // llvm.assume and friends; returns nothing or passes the first argument through
                if d.is_some() {
                    ret = Some(self.val(st, &args[0]));
                }
            }
            Sp::Write => {
                let n = arg!(2);
                ret = Some(Val::I(n));
            }
            Sp::Zero => {
                if d.is_some() {
                    ret = Some(zero(&mut self.cx, rt));
                }
            }
            Sp::Tla => ret = Some(self.val(st, &args[0])),
            Sp::IsConst => ret = Some(Val::I(self.cx.con(1, 0))),
            Sp::Expect => ret = Some(self.val(st, &args[0])),
            Sp::ReduceOr | Sp::ReduceAnd | Sp::ReduceAdd => {
                let v = self.val(st, &args[0]);
                if let Val::Agg(vs) = v {
                    let w = rt.bits();
                    let mut acc: Option<E> = None;
                    for x in vs.iter() {
                        let e = match x {
                            Val::I(e) => *e,
                            _ => self.cx.con(w, 0),
                        };
                        acc = Some(match acc {
                            None => e,
                            Some(a) => match sp {
                                Sp::ReduceOr => self.cx.or(a, e),
                                Sp::ReduceAnd => self.cx.and(a, e),
                                _ => self.cx.add(a, e),
                            },
                        });
                    }
                    ret = acc.map(Val::I);
                }
            }
            Sp::Umin | Sp::Umax | Sp::Smin | Sp::Smax | Sp::USubS | Sp::UAddS | Sp::UMulO | Sp::UAddO | Sp::USubO | Sp::SAddO | Sp::SSubO | Sp::SMulO | Sp::Ucmp | Sp::Scmp => {
                let (x, y) = (self.val(st, &args[0]), self.val(st, &args[1]));
                let outw = match rt {
                    Ty::Int(w) => *w,
                    _ => 0,
                };
                let r = match (&x, &y) {
                    (Val::Agg(xs), Val::Agg(ys)) => {
                        let mut v = vec![];
                        for i in 0..xs.len() {
                            let (a, b) = (self.force(&xs[i], 8), self.force(&ys[i], 8));
                            v.push(self.arith2(sp, a, b, 8));
                        }
                        Val::Agg(Rc::new(v))
                    }
                    _ => {
                        let w = match (&x, &y) {
                            (Val::I(e), _) | (_, Val::I(e)) => self.cx.w(*e),
                            _ => 64,
                        };
                        let (mut a, mut b) = (self.force(&x, w), self.force(&y, w));
                        a = self.simp(st, a);
                        b = self.simp(st, b);
                        self.arith2(sp, a, b, outw)
                    }
                };
                ret = Some(r);
            }
            Sp::Fshl | Sp::Fshr => {
                let w = rt.bits();
                let a = self.sc(st, &args[0], w);
                let b = self.sc(st, &args[1], w);
                let s = self.sc(st, &args[2], w);
                let wc = self.cx.con(w, w as u128);
                let s = self.cx.urem(s, wc);
                let inv = self.cx.sub(wc, s);
                // shifts by >= width give 0 in our semantics
                let r = if sp == Sp::Fshl {
                    let x = self.cx.shl(a, s);
                    let y = self.cx.lshr(b, inv);
                    self.cx.or(x, y)
                } else {
                    let x = self.cx.shl(a, inv);
                    let y = self.cx.lshr(b, s);
                    self.cx.or(x, y)
                };
                ret = Some(Val::I(r));
            }
            Sp::Ctpop | Sp::Cttz | Sp::Ctlz | Sp::Bswap | Sp::BitRev | Sp::Abs => {
                let w = rt.bits();
                let a = self.sc(st, &args[0], w);
                let a = self.simp(st, a);
                let r = match sp {
                    Sp::Ctpop => {
                        let mut acc = self.cx.con(w, 0);
                        for i in 0..w {
                            let b = self.cx.extract(a, i, 1);
                            let b = self.cx.zext(b, w);
                            acc = self.cx.add(acc, b);
                        }
                        acc
                    }
                    Sp::Cttz => {
                        let mut acc = self.cx.con(w, w as u128);
                        for i in (0..w).rev() {
                            let b = self.cx.extract(a, i, 1);
                            let k = self.cx.con(w, i as u128);
                            acc = self.cx.ite(b, k, acc);
                        }
                        acc
                    }
                    Sp::Ctlz => {
                        let mut acc = self.cx.con(w, w as u128);
                        for i in 0..w {
                            let b = self.cx.extract(a, i, 1);
                            let k = self.cx.con(w, (w - 1 - i) as u128);
                            acc = self.cx.ite(b, k, acc);
                        }
                        acc
                    }
                    Sp::Bswap => {
                        let n = w / 8;
                        let mut acc = self.cx.extract(a, 0, 8);
                        for i in 1..n {
                            let b = self.cx.extract(a, 8 * i, 8);
                            acc = self.cx.concat(acc, b);
                        }
                        acc
                    }
                    Sp::BitRev => {
                        let mut acc = self.cx.extract(a, 0, 1);
                        for i in 1..w {
                            let b = self.cx.extract(a, i, 1);
                            acc = self.cx.concat(acc, b);
                        }
                        acc
                    }
                    _ => {
                        let z = self.cx.con(w, 0);
                        let n = self.cx.sub(z, a);
                        let neg = self.cx.slt(a, z);
                        self.cx.ite(neg, n, a)
                    }
                };
                ret = Some(Val::I(r));
            }
            Sp::Unknown => return Err(End::Error(format!("call to unmodelled external {}", name))),
            Sp::None => unreachable!(),
        }
        if let (Some(d), Some(v)) = (d, ret) {
            self.set(st, d, v);
        }
        self.next(st);
        Ok(true)
    }
    fn force(&mut self, v: &Val, w: u8) -> E {
        match v {
            Val::I(e) => *e,
            _ => self.cx.con(w, 0),
        }
    }
    fn arith2(&mut self, sp: Sp, a: E, b: E, outw: u8) -> Val {
        let w = self.cx.w(a);
        let pair = |x: E, o: E| Val::Agg(Rc::new(vec![Val::I(x), Val::I(o)]));
        match sp {
            Sp::Umin => {
                let c = self.cx.ult(a, b);
                Val::I(self.cx.ite(c, a, b))
            }
            Sp::Umax => {
                let c = self.cx.ult(a, b);
                Val::I(self.cx.ite(c, b, a))
            }
            Sp::Smin => {
                let c = self.cx.slt(a, b);
                Val::I(self.cx.ite(c, a, b))
            }
            Sp::Smax => {
                let c = self.cx.slt(a, b);
                Val::I(self.cx.ite(c, b, a))
            }
            Sp::USubS => {
                let c = self.cx.ult(a, b);
                let s = self.cx.sub(a, b);
                let z = self.cx.con(w, 0);
                Val::I(self.cx.ite(c, z, s))
            }
            Sp::UAddS => {
                let s = self.cx.add(a, b);
                let o = self.uadd_o(a, b, s);
                let m = self.cx.con(w, u128::MAX);
                Val::I(self.cx.ite(o, m, s))
            }
            Sp::UAddO => {
                let s = self.cx.add(a, b);
                let o = self.uadd_o(a, b, s);
                pair(s, o)
            }
            Sp::USubO => {
                let s = self.cx.sub(a, b);
                let o = self.cx.ult(a, b);
                pair(s, o)
            }
            Sp::UMulO => {
                let p = self.cx.mul(a, b);
                let (x, y) = (self.cx.rng[a as usize].1, self.cx.rng[b as usize].1);
                let o = if x.checked_mul(y).map(|v| v <= mask(w)).unwrap_or(false) {
                    self.cx.con(1, 0)
                } else if let Some(k) = self.cx.cv(b).or(self.cx.cv(a)) {
                    // x * k overflows iff x > max / k
                    let v = if self.cx.cv(b).is_some() { a } else { b };
                    if k == 0 {
                        self.cx.con(1, 0)
                    } else {
                        let lim = self.cx.con(w, mask(w) / k);
                        self.cx.ult(lim, v)
                    }
                } else if w <= 64 {
                    let xa = self.cx.zext(a, 2 * w);
                    let xb = self.cx.zext(b, 2 * w);
                    let q = self.cx.mul(xa, xb);
                    let h = self.cx.extract(q, w, w);
                    let z = self.cx.con(w, 0);
                    self.cx.ne(h, z)
                } else {
                    panic!("umulo 128")
                };
                pair(p, o)
            }
            Sp::SAddO | Sp::SSubO | Sp::SMulO => {
                let ww = if sp == Sp::SMulO { 2 * w } else { w + 1 };
                let xa = self.cx.sext(a, ww);
                let xb = self.cx.sext(b, ww);
                let q = match sp {
                    Sp::SAddO => self.cx.add(xa, xb),
                    Sp::SSubO => self.cx.sub(xa, xb),
                    _ => self.cx.mul(xa, xb),
                };
                let s = self.cx.trunc(q, w);
                let back = self.cx.sext(s, ww);
                let o = self.cx.ne(back, q);
                pair(s, o)
            }
            Sp::Ucmp | Sp::Scmp => {
                let l = if sp == Sp::Ucmp { self.cx.ult(a, b) } else { self.cx.slt(a, b) };
                let e = self.cx.eq(a, b);
                let (m1, z, p1) = (self.cx.con(outw, u128::MAX), self.cx.con(outw, 0), self.cx.con(outw, 1));
                let x = self.cx.ite(e, z, p1);
                Val::I(self.cx.ite(l, m1, x))
            }
            _ => unreachable!(),
        }
    }
    fn uadd_o(&mut self, a: E, b: E, s: E) -> E {
        let w = self.cx.w(a);
        let (x, y) = (self.cx.rng[a as usize].1, self.cx.rng[b as usize].1);
        if x.checked_add(y).map(|v| v <= mask(w)).unwrap_or(false) {
            return self.cx.con(1, 0);
        }
        if let Some(k) = self.cx.cv(b) {
            let lim = self.cx.con(w, mask(w) - k);
            return self.cx.ult(lim, a);
        }
        if let Some(k) = self.cx.cv(a) {
            let lim = self.cx.con(w, mask(w) - k);
            return self.cx.ult(lim, b);
        }
        self.cx.ult(s, a)
    }
}

fn classify(name: &str, has_body: bool) -> Sp {
    match name {
        "sym_u8" => return Sp::U(8),
        "sym_u16" => return Sp::U(16),
        "sym_u32" => return Sp::U(32),
        "sym_u64" => return Sp::U(64),
        "sym_fresh_u32" => return Sp::Fresh,
        "sym_assume" => return Sp::Assume,
        "sym_assert" => return Sp::Assert,
        "sym_reach" => return Sp::Reach,
        "sym_alloc_limit" => return Sp::Limit,
        "sym_observe" => return Sp::Observe,
        "sym_conc" => return Sp::Conc,
        "sym_is_engine" => return Sp::IsEngine,
        "sym_phantom" => return Sp::Phantom,
        "sym_is_phantom" => return Sp::Len,
        "sym_stop" => return Sp::Stop,
        "malloc" => return Sp::Malloc,
        "calloc" => return Sp::Calloc,
        "realloc" => return Sp::Realloc,
        "posix_memalign" => return Sp::Memalign,
        "free" => return Sp::Free,
        "bcmp" => return Sp::Bcmp,
        "memcmp" => return Sp::Memcmp,
        "memcpy" => return Sp::Memcpy,
        "memmove" => return Sp::Memmove,
        "memset" => return Sp::Memset,
        "strlen" => return Sp::Strlen,
        "abort" => return Sp::Abort,
        "write" => return Sp::Write,
        "getenv" => return Sp::Zero,
        _ => {}
    }
    if let Some(r) = name.strip_prefix("llvm.") {
        let p = |s: &str| r.starts_with(s);
        return if p("lifetime") || p("assume") || p("experimental.noalias") || p("dbg") || p("invariant") || p("x86.sse2.pause") || p("prefetch") {
            Sp::Nop
        } else if p("memcpy") {
            Sp::Memcpy
        } else if p("memmove") {
            Sp::Memmove
        } else if p("memset") {
            Sp::Memset
        } else if p("umin") {
            Sp::Umin
        } else if p("umax") {
            Sp::Umax
        } else if p("smin") {
            Sp::Smin
        } else if p("smax") {
            Sp::Smax
        } else if p("fshl") {
            Sp::Fshl
        } else if p("fshr") {
            Sp::Fshr
        } else if p("umul.with") {
            Sp::UMulO
        } else if p("uadd.with") {
            Sp::UAddO
        } else if p("usub.with") {
            Sp::USubO
        } else if p("sadd.with") {
            Sp::SAddO
        } else if p("ssub.with") {
            Sp::SSubO
        } else if p("smul.with") {
            Sp::SMulO
        } else if p("ctpop") {
            Sp::Ctpop
        } else if p("cttz") {
            Sp::Cttz
        } else if p("ctlz") {
            Sp::Ctlz
        } else if p("usub.sat") {
            Sp::USubS
        } else if p("uadd.sat") {
            Sp::UAddS
        } else if p("is.constant") {
            Sp::IsConst
        } else if p("ucmp") {
            Sp::Ucmp
        } else if p("scmp") {
            Sp::Scmp
        } else if p("threadlocal.address") {
            Sp::Tla
        } else if p("bswap") {
            Sp::Bswap
        } else if p("bitreverse") {
            Sp::BitRev
        } else if p("abs") {
            Sp::Abs
        } else if p("expect") {
            Sp::Expect
        } else if p("vector.reduce.or") {
            Sp::ReduceOr
        } else if p("vector.reduce.and") {
            Sp::ReduceAnd
        } else if p("vector.reduce.add") {
            Sp::ReduceAdd
        } else if p("trap") || p("ubsantrap") {
            Sp::Abort
        } else {
            Sp::Unknown
        };
    }
    if name.contains("4core9panicking")
        || name.contains("rust_begin_unwind")
        || name.contains("18handle_alloc_error")
        || name.contains("13unwrap_failed")
        || name.contains("13expect_failed")
        || name.contains("17capacity_overflow")
        || name.contains("16slice_index_fail")
        || name.contains("3std9panicking15begin_panic")
    {
        return Sp::Panic;
    }
    if !has_body {
        return Sp::Unknown;
    }
    Sp::None
}

/// Crude v0-symbol prettifier: keeps the identifier path.
pub fn short(n: &str) -> String {
    if !n.starts_with("_R") {
        return n.to_string();
    }
    let b = n.as_bytes();
    let mut out: Vec<&str> = vec![];
    let mut i = 2;
    while i < b.len() {
        if b[i].is_ascii_digit() && b[i] != b'0' {
            let st = i;
            while i < b.len() && b[i].is_ascii_digit() {
                i += 1;
            }
            let k: usize = n[st..i].parse().unwrap_or(0);
            let mut j = i;
            if j < b.len() && b[j] == b'_' {
                j += 1;
            }
            if k > 0 && j + k <= b.len() && n[j..j + k].bytes().all(|c| c.is_ascii_alphanumeric() || c == b'_') && k > 1 {
                out.push(&n[j..j + k]);
                i = j + k;
                continue;
            }
        } else if b[i] == b's' && i > 0 && b[i - 1] == b'C' {
            // crate disambiguator: skip to '_'
            while i < b.len() && b[i] != b'_' {
                i += 1;
            }
        }
        i += 1;
    }
    out.truncate(8);
    out.join("::")
}
