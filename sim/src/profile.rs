//! What the simulator concentrates on for each property, and which kinds of
//! misbehaviour count as a violation of it.

use crate::engine::{NOBS, NOPS};
use crate::rt::{draw, pick};
use crate::spec::GenCfg;
use std::sync::atomic::{AtomicUsize, Ordering::*};

#[derive(Clone)]
pub struct RunCfg {
    pub gen: GenCfg,
    pub ops: [u32; NOPS],
    pub obs: [u32; NOBS],
    pub faults: [u32; 7],
    pub buffer_faults: [u32; 7],
    pub reenter: u32,
    pub hold: u32,
    pub nops: u32,
    pub threads: usize,
    pub gap: usize,
    /// steps of library code between preemptions inside it
    pub code_gap: usize,
    pub nsrc: u32,
    pub nown: u32,
    pub live_ids: bool,
    /// released memory is handed out again at once
    pub reuse: bool,
}

pub struct Profile {
    pub id: &'static str,
    /// weights of 1, 2, 3, 4 threads
    threads: [u32; 4],
    /// Prim, Display, Debug, Err, Sval, Serde, Seq, PrimVec, FillPrim, Fill
    body: [u32; 10],
    /// percent
    live: u32,
    edge_text: u32,
    depth: u32,
    /// observe, borrow, new source, capture shared, clone, view, buffer,
    /// clone owned, re-buffer, into shared, drop, drop owned, drop source, mutate,
    /// storm of clones
    ops: [u32; NOPS],
    /// display, debug, sval, serde, visit, cast, seq, error, downcast, empty
    obs: [u32; NOBS],
    /// none, sink, source, lasting, source panic, sink panic, allocation
    faults: [u32; 7],
    reenter: u32,
    /// sources may fail while they are buffered, whatever else may fail
    mark: bool,
    /// how often what an inspection lends out is kept, in percent
    hold: u32,
    nops: u32,
    classes: &'static [&'static str],
}

const ALL: [u32; 10] = [2, 2, 2, 2, 3, 3, 3, 1, 1, 2];
const HEALTHY: [u32; 7] = [1, 0, 0, 0, 0, 0, 0];

pub static PROFILES: &[Profile] = &[
    Profile {
        id: "C01",
        threads: [8, 1, 0, 0],
        body: ALL,
        live: 20,
        edge_text: 20,
        depth: 2,
        ops: [12, 3, 1, 2, 1, 1, 3, 1, 1, 1, 1, 1, 1, 1, 0],
        obs: [5, 5, 0, 0, 0, 0, 0, 0, 0, 0],
        faults: [3, 9, 0, 0, 0, 0, 0],
        reenter: 0,
        mark: true,
        hold: 0,
        nops: 10,
        classes: &["text."],
    },
    Profile {
        id: "C02",
        threads: [8, 1, 0, 0],
        body: ALL,
        live: 20,
        edge_text: 15,
        depth: 3,
        ops: [12, 3, 1, 2, 1, 1, 3, 1, 1, 1, 1, 1, 1, 1, 0],
        obs: [0, 0, 5, 0, 0, 0, 0, 0, 0, 0],
        faults: [3, 9, 0, 0, 0, 0, 0],
        reenter: 0,
        mark: true,
        hold: 0,
        nops: 10,
        classes: &["sval."],
    },
    Profile {
        id: "C03",
        threads: [8, 1, 0, 0],
        body: ALL,
        live: 20,
        edge_text: 15,
        depth: 3,
        ops: [12, 3, 1, 2, 1, 1, 3, 1, 1, 1, 1, 1, 1, 1, 0],
        obs: [0, 0, 0, 5, 0, 0, 0, 0, 0, 0],
        faults: [3, 9, 0, 0, 0, 0, 0],
        reenter: 0,
        mark: true,
        hold: 0,
        nops: 10,
        classes: &["serde."],
    },
    Profile {
        id: "C04",
        threads: [8, 1, 0, 0],
        body: [3, 1, 1, 2, 4, 4, 2, 1, 3, 3],
        live: 20,
        edge_text: 15,
        depth: 1,
        ops: [12, 3, 2, 2, 1, 1, 3, 1, 1, 1, 1, 1, 1, 1, 0],
        obs: [0, 0, 0, 0, 5, 0, 0, 0, 0, 0],
        faults: [4, 6, 0, 0, 0, 0, 0],
        reenter: 0,
        mark: true,
        hold: 0,
        nops: 12,
        classes: &["visit."],
    },
    Profile {
        id: "C05",
        threads: [8, 1, 0, 0],
        body: [1, 2, 2, 2, 3, 3, 3, 0, 2, 3],
        live: 20,
        edge_text: 10,
        depth: 2,
        ops: [14, 4, 2, 2, 1, 0, 1, 0, 0, 0, 1, 1, 1, 1, 0],
        obs: [4, 4, 4, 4, 1, 2, 3, 0, 0, 0],
        faults: [2, 0, 6, 4, 0, 0, 0],
        reenter: 0,
        mark: false,
        hold: 0,
        nops: 10,
        classes: &["text.", "sval.", "serde.", "cast.", "seq.", "visit.panic", "visit.source"],
    },
    Profile {
        id: "C06",
        threads: [6, 2, 0, 0],
        body: [1, 3, 3, 3, 3, 3, 3, 0, 2, 3],
        live: 20,
        edge_text: 25,
        depth: 2,
        ops: [6, 4, 2, 0, 1, 2, 9, 2, 2, 2, 1, 1, 1, 1, 0],
        obs: [3, 3, 3, 3, 3, 3, 2, 2, 0, 2],
        faults: [2, 0, 6, 5, 0, 0, 0],
        reenter: 0,
        mark: false,
        hold: 0,
        nops: 12,
        classes: &["buffer.panic", "text.healthy", "sval.healthy", "serde.healthy", "visit.healthy", "cast.healthy", "seq.healthy", "error.healthy", "empty.healthy",
                   "text.panic", "sval.panic", "serde.panic", "visit.panic", "cast.panic", "seq.panic", "error.panic"],
    },
    Profile {
        id: "C07",
        threads: [3, 4, 3, 1],
        body: [2, 3, 3, 2, 3, 3, 4, 2, 1, 2],
        live: 80,
        edge_text: 25,
        depth: 2,
        ops: [8, 3, 1, 0, 1, 2, 6, 2, 2, 2, 2, 1, 3, 8, 1],
        obs: [4, 4, 4, 4, 3, 2, 2, 1, 1, 0],
        faults: HEALTHY,
        reenter: 10,
        mark: true,
        hold: 0,
        nops: 12,
        classes: &["eval.", "text.healthy", "sval.healthy", "serde.healthy", "visit.healthy", "cast.healthy", "seq.healthy", "error.healthy",
                   "use-after-drop", "memory-corruption", "downcast.healthy"],
    },
    Profile {
        id: "C08",
        threads: [2, 4, 3, 1],
        body: [2, 3, 3, 3, 3, 3, 4, 1, 1, 1],
        live: 60,
        edge_text: 25,
        depth: 2,
        ops: [6, 1, 0, 5, 4, 3, 4, 3, 3, 3, 5, 5, 1, 4, 3],
        obs: [3, 3, 3, 3, 2, 1, 1, 1, 4, 0],
        faults: HEALTHY,
        reenter: 8,
        mark: false,
        hold: 15,
        nops: 14,
        classes: &["eval.handle", "early-drop", "late-drop", "double-drop", "leak", "use-after-drop", "memory-corruption", "downcast.healthy",
                   "text.healthy", "sval.healthy", "serde.healthy", "visit.healthy", "error.healthy", "cast.healthy", "seq.healthy", "drop.panic", "clone.panic", "capture.panic", "borrow.panic"],
    },
    Profile {
        id: "C09",
        threads: [3, 5, 4, 2],
        body: ALL,
        live: 40,
        edge_text: 25,
        depth: 2,
        ops: [16, 4, 1, 2, 2, 2, 4, 2, 2, 1, 2, 2, 1, 2, 1],
        obs: [4, 4, 4, 4, 3, 3, 3, 2, 1, 1],
        faults: [8, 1, 1, 1, 0, 0, 0],
        reenter: 45,
        mark: true,
        hold: 15,
        nops: 10,
        classes: &["text.", "sval.", "serde.", "visit.", "cast.", "seq.", "error.", "downcast.", "empty.", "buffer.", "clone.", "capture.", "borrow.", "drop.panic",
                   "eval.frozen", "use-after-drop", "memory-corruption", "deadlock", "hang"],
    },
    Profile {
        id: "C10",
        threads: [5, 3, 1, 0],
        body: ALL,
        live: 30,
        edge_text: 20,
        depth: 2,
        ops: [10, 3, 1, 2, 1, 2, 5, 2, 2, 1, 2, 2, 1, 2, 1],
        obs: [4, 4, 4, 4, 4, 3, 4, 2, 1, 1],
        faults: [3, 0, 0, 0, 6, 4, 0],
        reenter: 10,
        mark: false,
        hold: 0,
        nops: 10,
        classes: &["text.", "sval.", "serde.", "visit.", "cast.", "seq.", "error.", "downcast.", "empty.", "buffer.", "clone.", "capture.", "borrow.", "drop.",
                   "early-drop", "late-drop", "double-drop", "leak", "use-after-drop", "memory-corruption", "deadlock", "hang"],
    },
    Profile {
        id: "C11",
        threads: [6, 2, 0, 0],
        body: ALL,
        live: 30,
        edge_text: 35,
        depth: 2,
        ops: [7, 3, 1, 3, 2, 2, 6, 3, 4, 3, 2, 2, 1, 1, 1],
        obs: [3, 3, 4, 4, 3, 3, 4, 2, 1, 1],
        faults: [3, 0, 0, 0, 0, 0, 9],
        reenter: 5,
        mark: false,
        hold: 0,
        nops: 12,
        classes: &["text.", "sval.", "serde.", "visit.", "cast.", "seq.", "error.", "downcast.", "empty.", "buffer.", "clone.", "capture.", "borrow.", "drop.",
                   "early-drop", "late-drop", "double-drop", "leak", "use-after-drop", "memory-corruption", "deadlock", "hang"],
    },
    Profile {
        id: "C12",
        threads: [6, 2, 0, 0],
        body: [2, 5, 5, 3, 5, 2, 3, 2, 1, 3],
        live: 15,
        edge_text: 85,
        depth: 2,
        ops: [10, 3, 2, 1, 1, 2, 5, 1, 2, 1, 1, 1, 1, 1, 0],
        obs: [4, 4, 4, 4, 2, 4, 4, 1, 0, 0],
        faults: HEALTHY,
        reenter: 10,
        mark: false,
        hold: 0,
        nops: 10,
        classes: &["text.", "sval.", "serde.", "visit.", "cast.", "seq.", "error.", "buffer.panic", "memory-corruption"],
    },
    Profile {
        id: "C13",
        threads: [8, 1, 0, 0],
        body: [0, 0, 0, 0, 4, 4, 6, 3, 0, 3],
        live: 15,
        edge_text: 20,
        depth: 4,
        ops: [14, 3, 2, 2, 1, 1, 4, 1, 1, 1, 1, 1, 1, 1, 0],
        obs: [0, 0, 0, 0, 0, 0, 10, 0, 0, 0],
        faults: [6, 0, 3, 2, 0, 0, 0],
        reenter: 5,
        mark: false,
        hold: 0,
        nops: 10,
        classes: &["seq."],
    },
    Profile {
        id: "C14",
        threads: [2, 3, 3, 0],
        body: ALL,
        live: 15,
        edge_text: 30,
        depth: 3,
        ops: [9, 3, 1, 2, 3, 3, 4, 3, 3, 3, 2, 2, 2, 1, 2],
        obs: [3, 3, 3, 3, 2, 3, 2, 3, 1, 2],
        faults: HEALTHY,
        reenter: 5,
        mark: true,
        hold: 15,
        nops: 16,
        classes: &["text.", "sval.", "serde.", "visit.", "cast.", "seq.", "error.", "empty.", "downcast.", "buffer.", "clone.", "capture.", "borrow.",
                   "use-after-drop", "memory-corruption"],
    },
    Profile {
        id: "C15",
        threads: [3, 4, 3, 1],
        body: [1, 3, 3, 3, 4, 4, 4, 1, 1, 4],
        live: 90,
        edge_text: 15,
        depth: 3,
        ops: [14, 6, 1, 1, 4, 1, 1, 0, 0, 0, 3, 1, 3, 12, 1],
        obs: [4, 4, 4, 4, 4, 3, 3, 2, 1, 1],
        faults: [6, 1, 1, 0, 0, 0, 0],
        reenter: 20,
        mark: false,
        hold: 0,
        nops: 14,
        classes: &["eval.handle", "eval.frozen", "eval.twice", "text.", "sval.", "serde.", "visit.", "cast.", "seq.", "error.", "empty.", "downcast.", "clone.", "capture.", "borrow.", "drop.panic",
                   "use-after-drop", "memory-corruption"],
    },
    Profile {
        id: "C16",
        threads: [4, 4, 2, 0],
        body: [12, 1, 1, 7, 3, 2, 4, 8, 3, 4],
        live: 30,
        edge_text: 25,
        depth: 2,
        ops: [14, 4, 1, 3, 3, 3, 4, 2, 1, 2, 5, 4, 4, 2, 2],
        obs: [0, 0, 2, 0, 4, 6, 4, 4, 3, 0],
        faults: [8, 1, 1, 0, 0, 0, 0],
        reenter: 10,
        mark: false,
        hold: 70,
        nops: 14,
        classes: &["loan.", "use-after-drop", "memory-corruption", "early-drop", "double-drop", "cast.", "seq.", "error.", "downcast.", "visit."],
    },
];

static CURRENT: AtomicUsize = AtomicUsize::new(0);

pub fn select(id: &str) -> bool {
    match PROFILES.iter().position(|p| p.id == id) {
        Some(i) => {
            CURRENT.store(i, Relaxed);
            true
        }
        None => false,
    }
}

pub fn current() -> &'static Profile {
    &PROFILES[CURRENT.load(Relaxed)]
}

/// Does this kind of misbehaviour contradict the property?
pub fn relevant(class: &str) -> bool {
    let p = current();
    p.classes.iter().any(|c| {
        if c.ends_with('.') {
            class.starts_with(c)
        } else {
            class == *c
        }
    })
}

/// Switch off a random part (swarm testing), keeping at least one entry.
fn swarm<const N: usize>(w: [u32; N]) -> [u32; N] {
    if draw(2) == 0 {
        return w;
    }
    let mut out = w;
    for x in out.iter_mut() {
        if draw(3) == 2 {
            *x = 0;
        }
    }
    if out.iter().all(|x| *x == 0) {
        return w;
    }
    out
}

impl Profile {
    pub fn draw(&self) -> RunCfg {
        let threads = 1 + pick(&self.threads);
        let gap = if threads > 1 { [2, 5, 12, 40, 200][draw(5) as usize] } else { 0 };
        let code_gap = if threads > 1 { [0, 8, 40, 200, 1000][draw(5) as usize] } else { 0 };
        let mut ops = swarm(self.ops);
        ops[0] = self.ops[0];
        let live = if draw(4) == 3 { 0 } else { self.live };
        let mut faults = self.faults;
        // some runs without any fault
        if self.faults != HEALTHY && draw(6) == 5 {
            faults = HEALTHY;
        }
        RunCfg {
            gen: GenCfg { body: swarm(self.body), live, edge_text: self.edge_text, depth: self.depth.saturating_sub(draw(2)) },
            ops,
            obs: swarm(self.obs),
            faults,
            buffer_faults: if self.mark && draw(3) > 0 { [6, 0, 2, 1, 0, 0, 0] } else { faults },
            reenter: if draw(3) == 2 { 0 } else { self.reenter },
            hold: if draw(3) == 2 { 0 } else { self.hold },
            nops: (1 + draw(self.nops)) * if draw(120) == 119 { 12 } else { 1 },
            threads,
            gap,
            code_gap,
            nsrc: 1 + draw(3),
            nown: draw(3),
            live_ids: live > 0,
            reuse: draw(4) == 3,
        }
    }
}
