fn main() {
    for f in tic_mc::checks::front::NAMES {
        let mut g = tic_mc::cfg::Cfg::new(f.rules);
        let mut v = vec![];
        for n in 0..=9 {
            let mut c = 0usize;
            g.each('P', n, &mut |_| c += 1);
            v.push(c);
            if c > 300_000 { break }
        }
        println!("{} {} {}: {v:?}", f.name, f.quick, f.thorough);
    }
}
