mod configs;
mod drive;
mod extra;
mod gen;
mod graph;
mod images;
mod misc;
mod obs;
mod sgf;
mod util;

use std::io::Write;

fn main() {
    if std::env::var("SHOW_PANICS").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let a: Vec<String> = std::env::args().collect();
    let run = move || match a[1].as_str() {
        // drive PROP SEED COST OUT
        "drive" => {
            let out = drive::drive(&a[2], a[3].parse().unwrap(), a[4].parse().unwrap());
            let mut f = std::io::BufWriter::new(std::fs::File::create(&a[5]).unwrap());
            for l in &out.lines {
                writeln!(f, "{l}").unwrap();
            }
            println!("scenarios {} events {}", out.scenarios, out.lines.len());
        }
        // graph PROP H W RULE FILE STEPS SEED
        "graph" => {
            let n = |i: usize| a[i].parse::<usize>().unwrap();
            let g = graph::Graph::read(n(3), n(4), n(5) as u32, &a[6]);
            graph::walk(&a[2], &g, n(7), n(8) as u64).print();
        }
        // boards PROP H W FILE SEED
        "boards" => {
            let n = |i: usize| a[i].parse::<usize>().unwrap();
            let g = graph::Graph::read(n(3), n(4), 0, &a[5]);
            graph::boards(&a[2], &g, n(6) as u64).print();
        }
        // images PROP H W FILE SEED
        "images" => {
            let n = |i: usize| a[i].parse::<usize>().unwrap();
            images::replay(n(3), n(4), &a[5], n(6) as u64).print();
        }
        // games PROP H W RULE SCORE KOMI FILE
        "games" => {
            let n = |i: usize| a[i].parse::<usize>().unwrap();
            graph::games(
                &a[2],
                n(3),
                n(4),
                n(5) as u32,
                n(6) as u32,
                a[7].parse().unwrap(),
                &a[8],
            )
            .print();
        }
        // configs PROP H W RULE SCORE KOMI FILE SEED
        "configs" => {
            let n = |i: usize| a[i].parse::<i64>().unwrap();
            let c = configs::Fixed {
                h: n(3) as usize,
                w: n(4) as usize,
                ill: n(5) as u32,
                sco: n(6) as u32,
                k: n(7),
            };
            configs::replay(&a[2], &c, &a[8], n(9) as u64).print();
        }
        x => {
            eprintln!("unknown command {x}");
            std::process::exit(2);
        }
    };
    std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(run)
        .unwrap()
        .join()
        .unwrap();
}
