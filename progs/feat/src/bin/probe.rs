//! with the standard library around it
#![allow(warnings)]
#[path = "../../items.rs"]
mod items;
fn main() {
    let arg = |i: usize| std::env::args().nth(i).map_or(12, |a| a.parse::<u64>().unwrap());
    struct S(String);
    impl core::fmt::Write for S {
        fn write_str(&mut self, s: &str) -> core::fmt::Result {
            self.0.push_str(s);
            Ok(())
        }
    }
    let mut s = S(String::new());
    let n = items::run(&mut s, arg(1), arg(2));
    print!("{}end\t{n}\n", s.0);
}
