pub struct Triple(bool);
pub struct Width(u8);
impl Width { pub fn bytes(&self) -> u8 { self.0 } }
impl std::str::FromStr for Triple { type Err = (); fn from_str(s: &str) -> Result<Self, ()> { if s.contains('-') { Ok(Triple(s.contains("64"))) } else { Err(()) } } }
impl Triple { pub fn pointer_width(&self) -> Result<Width, ()> { Ok(Width(if self.0 { 8 } else { 4 })) } }
