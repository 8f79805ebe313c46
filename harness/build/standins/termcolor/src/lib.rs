use std::io::{Result, Stderr, Write};
pub enum Color { Red, Green }
pub enum ColorChoice { Auto }
pub struct ColorSpec;
impl ColorSpec { pub fn new() -> Self { Self } pub fn set_fg(&mut self, _: Option<Color>) -> &mut Self { self } }
pub struct StandardStream(Stderr);
impl StandardStream { pub fn stderr(_: ColorChoice) -> Self { Self(std::io::stderr()) } }
pub trait WriteColor { fn set_color(&mut self, s: &ColorSpec) -> Result<()>; }
impl WriteColor for StandardStream { fn set_color(&mut self, _: &ColorSpec) -> Result<()> { Ok(()) } }
impl Write for StandardStream { fn write(&mut self, b: &[u8]) -> Result<usize> { self.0.write(b) } fn flush(&mut self) -> Result<()> { self.0.flush() } }
