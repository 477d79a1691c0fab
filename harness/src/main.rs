mod core;
mod gen;
mod m3;
mod mon;
mod ops;
mod p_conc;
mod p_fk;
mod p_ik;
mod p_joint;
mod p_robust;
mod p_same;
mod p_tree;
mod p_urdf;
mod rng;
mod sc;

use crate::core::*;

#[global_allocator]
static ALLOC: Counting = Counting;

macro_rules! trees {
    ($($x:expr),*) => {
        concat!("random trees of 1..120 nodes (paths, stars, binary, caterpillar, broom, random; fixed, rotational and linear joints, axes, rotated origins, limits, names, f32 and f64) with random histories of setters, origin changes, updates and queries through random views; ", $($x),*)
    };
}
const NODRV: &str = "reference computed in f64 by independent code of the harness; tolerances are multiples of the rounding error of the scalar type and the depth and size of the tree";

pub fn plans() -> Vec<Plan> {
    let p = |id, run, quick, thorough, rule| Plan {
        id,
        run,
        cases: (quick, thorough),
        workers: 8,
        replays: 1,
        case_cpu: 20,
        rule,
        assumptions: &[NODRV],
    };
    const M: u64 = 1_000_000;
    let conc = |x| Plan {
        replays: 3000,
        assumptions: &["interleavings are those the scheduler and the injected delays produce, not all", "the event times come from one atomic counter"],
        ..x
    };
    vec![
        p("P01", p_fk::p01, 800_000, 60 * M, trees!("distinct: by the robot's structure and values; non-trivial: at least two nodes and one movable joint")),
        p("P02", p_tree::p02, 800_000, 60 * M, trees!("distinct: by the robot's structure and values; non-trivial: more than two nodes")),
        p("P03", p_tree::p03, 300_000, 60 * M, "random sequences of connecting and disconnecting up to 14 nodes, compared with a model after every step; distinct: by the sequence; non-trivial: contains a disconnection"),
        p("P04", p_joint::p04, 800_000, 60 * M, "random joints, nodes and chains with and without limits (also degenerate and infinite), positions at, next to, inside and outside of the limits, NaN and infinities, through each setter; distinct: by the joints and values; every case is non-trivial"),
        p("P05", p_joint::p05, 500_000, 40 * M, trees!("with random mimic relations; distinct: by robot and relations; non-trivial: at least two relations")),
        p("P21", p_joint::p21, 300_000, 30 * M, "every combination of flags, present and absent fields and random ignored names, written and read as JSON; distinct: by flags and fields present; every case is non-trivial"),
        p("P06", p_tree::p06, 500_000, 40 * M, trees!("cloned, then original and copy are used alternately; distinct: by robot; non-trivial: more than two nodes in the clone")),
        p("P20", p_tree::p20, 500_000, 40 * M, trees!("the text is parsed and compared with the tree; distinct: by robot; non-trivial: more than two nodes shown")),
        p("P22", p_tree::p22, 300_000, 30 * M, trees!("state compared bit by bit around every query; distinct: by robot; non-trivial: more than three repeated queries compared")),
        p("P23", p_tree::p23, 500_000, 40 * M, trees!("handles dropped in random order, bytes and blocks of the allocator balanced per case; distinct: by robot; non-trivial: more than two nodes")),
        p("P07", p_fk::p07, 800_000, 60 * M, trees!("distinct: by robot; non-trivial: at least two movable joints in the chain")),
        p("P08", p_ik::p08, 400_000, 20 * M, "random arms (1..12 joints, also below the root and with joints beside), targets near, far and unreachable, all subsets of constraints, ignored joints, solver settings, null space functions; distinct: by robot; non-trivial: a success which moved a joint"),
        p("P09", p_ik::p09, 300_000, 20 * M, "random arms, unreachable, non-finite and extreme targets, invalid and repeated ignored names, too many constraints or none, zero tries, start positions outside the limits; distinct: by robot; non-trivial: a failure whose state and error were checked"),
        p("P10", p_ik::p10, 300_000, 20 * M, "random arms with targets reached by a small known displacement from well conditioned positions (checked by an independent singular value decomposition), single targets and paths; distinct: by robot; non-trivial: the target was outside three times the tolerances at the start"),
        p("P11", p_ik::p11, 300_000, 20 * M, "random redundant arms with recording null space functions; one solver step is compared with the independently computed projection; distinct: by robot; non-trivial: a displacement larger than 10 tolerances"),
        p("P12", p_urdf::p12, 100_000, 8 * M, "random URDF documents (1..16 links, all joint types, shuffled elements, optional parts left out, varied number formats), loaded by four routes; distinct: by robot; non-trivial: at least one joint"),
        p("P13", p_urdf::p13, 100_000, 8 * M, "random URDF documents with visuals, collisions and inertials of all kinds and parts left out; distinct: by robot; non-trivial: at least one joint"),
        p("P14", p_urdf::p14, 150_000, 10 * M, "random URDF documents; distinct: by robot; non-trivial: at least one joint"),
        p("P15", p_fk::p15, 500_000, 40 * M, trees!("with links of several visuals and collisions; distinct: by robot; non-trivial: more than one link compared")),
        p("P16", p_fk::p16, 800_000, 60 * M, trees!("with links of random mass; distinct: by robot; non-trivial: more than one link summed")),
        p("P17", p_fk::p17, 500_000, 40 * M, trees!("with joint velocities; distinct: by robot; non-trivial: at least two nodes and a moving joint")),
        p("P24", p_ik::p24, 150_000, 15 * M, "random arms, targets, constraints and solver settings; the solve is repeated with one circumstance changed (solver, handle, copy, cached transforms, joints beside the arm, links, thread, order and repetition of ignored names, solves in between) and compared bit by bit; distinct: by robot; non-trivial: more than three comparisons"),
        p("P25", p_robust::p25, 500_000, 40 * M, "random robots given NaN, infinite, subnormal and huge values by every setter and all calls made on them, then ordinary values and comparison with the reference; rarely trees of 200..1000 levels or children; distinct: by robot; non-trivial: at least one extreme value set"),
        conc(Plan { workers: 3, ..p("P26", p_conc::p26, 30_000, 600_000, "1..4 threads attach and detach subtrees of their own below nodes all of them share, and up to two more update, show and copy the tree, with delays injected at the node locks; distinct: by robot and the order in which the threads got the node locks; non-trivial: more than three hand-overs of locks between threads") }),
        p("P27", p_robust::p27, 500_000, 40 * M, "random joints, nodes, links and elements made by builders with the calls in every order and by constructors; distinct: by values; every case is non-trivial"),
        p("P28", p_same::p28, 300_000, 30 * M, trees!("each built twice: other names (exchanged, repeated, all equal), other order and calls of construction, copies; the same history run on both and every number seen compared bit by bit; distinct: by robot; non-trivial: more than two nodes")),
        conc(Plan { workers: 3, ..p("P18", p_conc::p18, 14_000, 230_000, "2..5 threads on one random robot: registers (linearizability of every joint position and link with unique values), disjoint arms (results equal those alone), limits, poses (each one seen is of positions the joints had), and mixes of all calls, with delays injected at the node locks; distinct: by robot and the order in which the threads got the node locks; non-trivial: more than three hand-overs of locks between threads") }),
        conc(p("P19", p_fk::p19, 500_000, 40 * M, trees!("each move is followed by reads of every changed joint, 2% of the cases with other threads updating meanwhile; distinct: by robot; non-trivial: at least one changed joint checked"))),
    ]
}

fn main() {
    install_logger();
    let a: Vec<String> = std::env::args().skip(1).collect();
    let mut o = Opts {
        seed: std::env::var("VERIF_SEED")
            .ok()
            .and_then(|s| s.trim().parse::<i64>().ok().map(|x| x as u64))
            .unwrap_or(1),
        tier: std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into()),
        verif: ".".into(),
        evidence: None,
        cases: None,
        only: None,
        time_cap: 600,
    };
    let mut pos = vec![];
    let mut it = a.into_iter();
    while let Some(x) = it.next() {
        let mut v = || match it.next() {
            Some(v) => v,
            None => {
                eprintln!("missing value of {}", x);
                std::process::exit(2)
            }
        };
        match x.as_str() {
            "--seed" => o.seed = v().parse::<i64>().expect("seed") as u64,
            "--tier" => o.tier = v(),
            "--verif" => o.verif = v(),
            "--evidence" => o.evidence = Some(v()),
            "--cases" => o.cases = Some(v().parse().expect("cases")),
            "--case" => o.only = Some(v().parse().expect("case seed")),
            "--cap" => o.time_cap = v().parse().expect("cap"),
            _ => pos.push(x),
        }
    }
    if pos.len() == 2 && pos[0] == "replay" {
        let s = std::fs::read_to_string(&pos[1]).expect("replay file");
        let get = |k: &str| s.lines().find_map(|l| l.strip_prefix(k).map(|x| x.to_string()));
        o.only = Some(get("seed=").expect("seed").parse().expect("seed"));
        o.tier = get("tier=").unwrap_or(o.tier);
        pos = vec![get("property=").expect("property")];
    }
    install_panic_hook();
    if pos.len() == 4 && pos[0] == "mini" {
        let n = |i: usize| pos[i].parse::<usize>().expect("number");
        std::process::exit(p_conc::mini(n(1) as u64, n(2), n(3)));
    }
    if pos.len() != 1 {
        eprintln!("usage: kmon <property> [--seed n] [--tier quick|thorough] [--cases n] [--case seed] | kmon replay <file>");
        std::process::exit(2);
    }
    let plans: &'static [Plan] = Box::leak(plans().into_boxed_slice());
    match plans.iter().find(|p| p.id == pos[0]) {
        Some(p) => std::process::exit(run_plan(p, &o)),
        None => {
            eprintln!("unknown property {}", pos[0]);
            std::process::exit(2)
        }
    }
}
