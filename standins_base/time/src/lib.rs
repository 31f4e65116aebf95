//! Only what converts a block time.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Duration(pub i64);
impl Duration {
    pub const fn milliseconds(n: i64) -> Self {
        Duration(n)
    }
}
pub mod error {
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct ComponentRange;
    impl std::fmt::Display for ComponentRange {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("range")
        }
    }
    impl std::error::Error for ComponentRange {}
}
extern "Rust" {
    fn opaque_unix(n: i64) -> Result<OffsetDateTime, error::ComponentRange>;
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct OffsetDateTime {
    pub secs: i64,
    pub millis: i64,
}
impl OffsetDateTime {
    pub fn from_unix_timestamp(n: i64) -> Result<Self, error::ComponentRange> {
        unsafe { opaque_unix(n) }
    }
}
impl std::ops::Add<Duration> for OffsetDateTime {
    type Output = OffsetDateTime;
    fn add(self, d: Duration) -> OffsetDateTime {
        OffsetDateTime { secs: self.secs, millis: self.millis + d.0 }
    }
}
