//! Plans: everything one simulated run does, as plain data.
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Default)]
pub struct Spec {
    pub v: usize,
    #[serde(default)]
    pub inc: Option<u32>,
    #[serde(default)]
    pub exc: Option<u32>,
    #[serde(default)]
    pub inc_ch: Option<String>,
    #[serde(default)]
    pub exc_ch: Option<String>,
    #[serde(default)]
    pub min: Option<u32>,
    #[serde(default)]
    pub max: Option<u32>,
    /// how the same query is spelled: setter order, category set construction, repeated setters
    #[serde(default)]
    pub path: u32,
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Src {
    /// a builder made for this call
    Fresh(Spec),
    /// as Fresh, with the character strings in buffers the task uses again and again
    Scratch(Spec),
    /// the shared builder itself
    Shared(usize),
    /// a clone of the shared builder, with these fields set anew (the others kept)
    CloneOf(usize, Spec),
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Read {
    Len,
    Empty,
    Contains(u32),
    At(u32),
    Index(u32),
    Above(u32),
    Front(u32),
    Back(u32),
    Sum,
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Act {
    Next(u32),
    Back(u32),
    Nth(u32),
    NthBack(u32),
    Take { n: u32, back: bool, panic_at: Option<u32> },
    Try { n: u32, back: bool, panic_at: Option<u32> },
    Find { n: u32, back: bool },
    Hint,
    Count,
    Last,
    MinMax,
    Fold { back: bool, panic_at: Option<u32> },
    Step { step: u32, n: u32 },
    Skip { skip: u32, n: u32 },
    CloneTo(usize),
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Default)]
pub struct StreamFaults {
    #[serde(default)]
    pub panic_at: Option<u32>,
    #[serde(default)]
    pub end_at: Option<u32>,
    #[serde(default)]
    pub yields: Vec<u32>,
    #[serde(default)]
    pub reenter: Vec<u32>,
    /// 0 honest, 1 (0, None), 2 far too many, 3 far too few, 4 inverted
    #[serde(default)]
    pub hint: u32,
    /// when reading an entry's text (not when asking for the entry): panic / pause
    #[serde(default)]
    pub text_panic_at: Option<u32>,
    #[serde(default)]
    pub text_yields: Vec<u32>,
    /// when the library drops an entry, the caller's destructor calls the library
    #[serde(default)]
    pub drop_reenter: Vec<u32>,
    /// an entry that comes so many times more (index, times)
    #[serde(default)]
    pub again: Option<(u32, u32)>,
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Default)]
pub struct SinkFaults {
    /// bytes accepted before the sink fails
    #[serde(default)]
    pub fail_after: Option<u32>,
    /// the failing write takes what still fits
    #[serde(default)]
    pub short: bool,
    #[serde(default)]
    pub panic: bool,
    /// fail at this write call instead
    #[serde(default)]
    pub fail_call: Option<u32>,
    #[serde(default)]
    pub yields: bool,
    #[serde(default)]
    pub reenter: bool,
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Item {
    Cat(usize),
    Set(u32),
    Version(usize),
    ErrCategory(String),
    ErrVersion(String),
    ErrRange(u32, u32),
    ErrOrder(u32, u32),
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum CsAct {
    Add(usize),
    Remove(usize),
    OrCat(usize),
    CatOr(usize),
    AssignCat(usize),
    AssignSet(u32),
    OrSet(u32),
    OrClass(usize),
    New,
    All,
    From(usize),
    Pair(usize, usize),
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Op {
    Query { src: Src, set: bool },
    SetPut { slot: usize, q: Spec },
    SetClone { from: usize, to: usize },
    SetDrop { slot: usize },
    SetRead { slot: usize, reads: Vec<Read> },
    /// on a shared cursor
    Cur { slot: usize, act: Act },
    /// a cursor of its own
    Own { q: Spec, acts: Vec<Act> },
    Expand { v: usize, names: Vec<String>, kind: u32, f: StreamFaults },
    Render { item: Item, f: SinkFaults },
    Normal(usize),
    Table(usize, usize),
    ParseVersion(String),
    ParseCat(String),
    Cs(Vec<CsAct>),
    Consts,
    /// a long history: `n` small calls from a seed
    Many { what: u32, seed: u64, n: u32 },
}
/// A call made from inside another call.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Nested {
    Query { q: Spec, set: bool },
    /// the shared builder itself
    Builder(usize),
    /// the interval set that is just being read
    Current(Vec<Read>),
    Expand { v: usize, names: Vec<String> },
    Render(Item),
    Normal(usize),
}
/// Makes the allocator call the library: at the `first`-th allocation (or release) of the call and then at every `every`-th.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Nest {
    pub first: u32,
    pub every: u32,
    pub frees: bool,
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Rec {
    pub op: Op,
    #[serde(default)]
    pub nest: Option<Nest>,
    /// after how many further operations the call that failed is made again
    #[serde(default)]
    pub again: u32,
    /// the n-th allocation of the call fails (from 1)
    #[serde(default)]
    pub fail: Option<u32>,
    /// made this many times in a row
    #[serde(default = "one")]
    pub rep: u32,
}
fn one() -> u32 {
    1
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Kind {
    Preempt(i32),
    Stall,
    Sleep(i64),
    Clock(i64),
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Event {
    pub task: i32,
    pub op: i32,
    pub step: u64,
    pub kind: Kind,
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Default)]
pub struct World {
    pub sched: u64,
    pub entropy: u64,
    pub env: u64,
    pub heap: u64,
    pub mono0: i64,
    pub real0: i64,
    pub extra_threads: u32,
    pub spawn_rot: u32,
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Plan {
    pub property: String,
    pub world: World,
    /// a second world in which the answers must be the same
    #[serde(default)]
    pub other: Option<World>,
    pub switch_pct: i32,
    pub quantum: u64,
    pub stall_strict: bool,
    pub builders: Vec<Spec>,
    pub sets: Vec<Spec>,
    pub cursors: Vec<Spec>,
    pub tasks: Vec<Vec<Rec>>,
    pub events: Vec<Event>,
    /// what the calls from inside other calls are, in turn
    #[serde(default)]
    pub nested: Vec<Nested>,
    /// for the k-th call from inside another call: its allocation at which the allocator calls the library again, and
    /// its allocation that fails
    #[serde(default)]
    pub inner: Vec<(u32, u32)>,
    /// the panic of a failed allocation calls the library from the panic hook
    #[serde(default)]
    pub hook: bool,
}
