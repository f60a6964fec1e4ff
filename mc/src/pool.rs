//! Linear memories that are mapped once per thread and recycled between calls: every call starts
//! from the module's initial image, without the cost of mapping fresh memory.
use std::cell::{Cell, RefCell};
use std::ptr::NonNull;
use std::sync::Arc;
use wasmer::{BaseTunables, MemoryType, Pages, TableType, Tunables};
use wasmer_vm::{
    Memory, MemoryError, MemoryStyle, Mmap, Table, TableStyle, VMMemoryDefinition, VMTableDefinition,
};

const PAGE: usize = 65536;
const MAX_PAGES: u32 = 1024;

#[derive(Debug)]
pub struct PoolMemory {
    _map: Mmap,
    def: NonNull<VMMemoryDefinition>,
    ty: MemoryType,
    style: MemoryStyle,
    base: *mut u8,
}
unsafe impl Send for PoolMemory {}
unsafe impl Sync for PoolMemory {}

impl Memory for PoolMemory {
    fn ty(&self) -> &MemoryType {
        &self.ty
    }
    fn style(&self) -> &MemoryStyle {
        &self.style
    }
    fn size(&self) -> Pages {
        Pages(unsafe { self.def.as_ref().current_length as u32 / PAGE as u32 })
    }
    fn grow(&self, delta: Pages) -> Result<Pages, MemoryError> {
        let old = self.size();
        match old.0.checked_add(delta.0) {
            Some(n) if n <= MAX_PAGES => {
                unsafe { (*self.def.as_ptr()).current_length = (n as usize * PAGE) as _ };
                Ok(old)
            }
            _ => Err(MemoryError::CouldNotGrow { current: old, attempted_delta: delta }),
        }
    }
    fn vmmemory(&self) -> NonNull<VMMemoryDefinition> {
        self.def
    }
}

impl PoolMemory {
    pub fn len(&self) -> usize {
        unsafe { self.def.as_ref().current_length as usize }
    }
    fn slice(&self, a: usize, b: usize) -> &mut [u8] {
        unsafe { std::slice::from_raw_parts_mut(self.base.add(a), b - a) }
    }
    /// The non-zero part of the fresh memory.
    pub fn image(&self) -> (usize, Vec<u8>) {
        let all = self.slice(0, self.len());
        let a = all.iter().position(|x| *x != 0).unwrap_or(0);
        let b = all.iter().rposition(|x| *x != 0).map_or(0, |x| x + 1);
        (a, all[a.min(b)..b].to_vec())
    }
    pub fn reset(&self, img: &(usize, Vec<u8>)) {
        let (a, data) = (img.0, &img.1);
        let b = a + data.len();
        self.slice(b, self.len()).fill(0);
        self.slice(a, b).copy_from_slice(data);
        // the shadow stack lies below the data: clear downwards until 64 KiB in a row are untouched
        let mut top = a;
        let mut clean = 0;
        while top > 0 && clean < 16 {
            let bot = top.saturating_sub(4096);
            let s = self.slice(bot, top);
            if s.iter().all(|x| *x == 0) {
                clean += 1;
            } else {
                s.fill(0);
                clean = 0;
            }
            top = bot;
        }
        unsafe { (*self.def.as_ptr()).current_length = (self.ty.minimum.0 as usize * PAGE) as _ };
    }
}

thread_local! {
    pub static LAST: RefCell<Option<Arc<PoolMemory>>> = RefCell::new(None);
    pub static CREATED: Cell<u64> = Cell::new(0);
}

pub struct PoolTunables(pub BaseTunables);
impl Tunables for PoolTunables {
    fn memory_style(&self, m: &MemoryType) -> MemoryStyle {
        self.0.memory_style(m)
    }
    fn table_style(&self, t: &TableType) -> TableStyle {
        self.0.table_style(t)
    }
    fn create_host_memory(&self, ty: &MemoryType, st: &MemoryStyle) -> Result<Arc<dyn Memory>, MemoryError> {
        self.0.create_host_memory(ty, st)
    }
    unsafe fn create_vm_memory(
        &self,
        ty: &MemoryType,
        style: &MemoryStyle,
        def: NonNull<VMMemoryDefinition>,
    ) -> Result<Arc<dyn Memory>, MemoryError> {
        let (bound, guard) = match style {
            MemoryStyle::Static { bound, offset_guard_size } => (bound.0 as usize * PAGE, *offset_guard_size as usize),
            _ => return Err(MemoryError::Generic("static memory expected".into())),
        };
        if ty.minimum.0 > MAX_PAGES {
            return Err(MemoryError::Generic("memory too large".into()));
        }
        let mut map = Mmap::accessible_reserved(MAX_PAGES as usize * PAGE, bound + guard)
            .map_err(MemoryError::Region)?;
        let base = map.as_mut_ptr();
        let d = def.as_ptr();
        (*d).base = base;
        (*d).current_length = (ty.minimum.0 as usize * PAGE) as _;
        let m = Arc::new(PoolMemory { _map: map, def, ty: *ty, style: style.clone(), base });
        LAST.with(|l| *l.borrow_mut() = Some(m.clone()));
        CREATED.with(|c| c.set(c.get() + 1));
        Ok(m)
    }
    fn create_host_table(&self, ty: &TableType, st: &TableStyle) -> Result<Arc<dyn Table>, String> {
        self.0.create_host_table(ty, st)
    }
    unsafe fn create_vm_table(
        &self,
        ty: &TableType,
        st: &TableStyle,
        def: NonNull<VMTableDefinition>,
    ) -> Result<Arc<dyn Table>, String> {
        self.0.create_vm_table(ty, st, def)
    }
}
