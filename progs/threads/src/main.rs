//! Compiles only if styled strings, and writers over sinks that allow it, can be
//! sent to and shared between threads.
#![allow(dead_code)]
fn send<T: Send>(what: &str) {
    println!("Send {what}");
}
fn sync<T: Sync>(what: &str) {
    println!("Sync {what}");
}
fn owned<T: 'static>(_: &str) {}
macro_rules! both {
    ($($t:ty),* $(,)?) => { $( send::<$t>(stringify!($t)); sync::<$t>(stringify!($t)); owned::<$t>(""); )* };
}
/// whatever the sink allows, the writer does
fn ansi<T: core::fmt::Write + Send + Sync + 'static>() {
    both!(stylish::Ansi<T>, stylish::Html<T>, stylish::Plain<T>);
}
fn ansi_io<T: std::io::Write + Send + Sync + 'static>() {
    both!(stylish::io::Ansi<T>, stylish::io::Plain<T>);
}
fn only_send<T: core::fmt::Write + Send>() {
    send::<stylish::Ansi<T>>("Ansi over a sink that is only Send");
    send::<stylish::Html<T>>("Html over a sink that is only Send");
    send::<stylish::Plain<T>>("Plain over a sink that is only Send");
}
fn only_send_io<T: std::io::Write + Send>() {
    send::<stylish::io::Ansi<T>>("io::Ansi over a sink that is only Send");
    send::<stylish::io::Plain<T>>("io::Plain over a sink that is only Send");
}
fn only_sync<T: core::fmt::Write + Sync>() {
    sync::<stylish::Ansi<T>>("Ansi over a sink that is only Sync");
    sync::<stylish::Html<T>>("Html over a sink that is only Sync");
    sync::<stylish::Plain<T>>("Plain over a sink that is only Sync");
}
fn main() {
    both!(
        stylish::String,
        stylish::Style,
        stylish::StyleDiff,
        stylish::Color,
        stylish::Intensity,
        stylish::Foreground,
        stylish::Background,
        stylish::Ansi<String>,
        stylish::Html<String>,
        stylish::Plain<String>,
        stylish::io::Ansi<Vec<u8>>,
        stylish::io::Plain<Vec<u8>>,
        stylish::io::Ansi<std::net::TcpStream>,
        stylish::io::Plain<std::fs::File>,
    );
    ansi::<String>();
    ansi_io::<Vec<u8>>();
    only_send::<Cellular>();
    only_send_io::<std::io::BufWriter<Vec<u8>>>();
    only_sync::<String>();
    // used that way
    let s = stylish::format!("{:(fg=red)}", 1);
    std::thread::scope(|t| {
        t.spawn(|| println!("shared {}", stylish::ansi::format!("{:s}", s)));
    });
    std::thread::spawn(move || println!("moved {}", stylish::html::format!("{:s}", s))).join().unwrap();
}
struct Cellular(std::cell::Cell<u8>);
impl core::fmt::Write for Cellular {
    fn write_str(&mut self, _: &str) -> core::fmt::Result {
        Ok(())
    }
}
