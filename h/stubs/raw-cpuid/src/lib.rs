//! Stand-in for the CPU feature query: which instruction sets the processor has is
//! chosen by the harness (SX_CPU: bit 0 avx2, bit 1 fma, bit 2 avx512f).
#[no_mangle]
pub static mut SX_CPU: u32 = 3;
fn cpu() -> u32 {
    unsafe { *(&raw const SX_CPU) }
}
pub struct CpuId;
impl CpuId {
    pub fn new() -> Self {
        CpuId
    }
    pub fn get_extended_feature_info(&self) -> Option<Ext> {
        Some(Ext)
    }
    pub fn get_feature_info(&self) -> Option<Feat> {
        Some(Feat)
    }
}
pub struct Ext;
pub struct Feat;
impl Ext {
    pub fn has_avx512f(&self) -> bool {
        cpu() & 4 != 0
    }
    pub fn has_avx512vl(&self) -> bool {
        cpu() & 4 != 0
    }
    pub fn has_avx512dq(&self) -> bool {
        cpu() & 4 != 0
    }
    pub fn has_avx512bw(&self) -> bool {
        cpu() & 4 != 0
    }
    pub fn has_avx2(&self) -> bool {
        cpu() & 1 != 0
    }
    pub fn has_bmi1(&self) -> bool {
        cpu() & 1 != 0
    }
    pub fn has_bmi2(&self) -> bool {
        cpu() & 1 != 0
    }
}
impl Feat {
    pub fn has_fma(&self) -> bool {
        cpu() & 2 != 0
    }
    pub fn has_avx(&self) -> bool {
        cpu() & 1 != 0
    }
    pub fn has_sse2(&self) -> bool {
        true
    }
    pub fn has_sse3(&self) -> bool {
        true
    }
    pub fn has_ssse3(&self) -> bool {
        true
    }
    pub fn has_sse41(&self) -> bool {
        true
    }
    pub fn has_sse42(&self) -> bool {
        true
    }
}
