//! Reads the JSON schema of a type.
use crate::types::Sink;
use core::fmt::Write as _;
use schemars::schema::{InstanceType, Schema, SingleOrVec};

/// Identity under which a generator stores the schema of a type; false if it never does.
pub fn id<H: schemars::JsonSchema>(s: &mut Sink) -> bool {
    let i = H::schema_id();
    let _ = s.write_str(&i);
    core::mem::forget(i);
    H::is_referenceable()
}
/// out = [is object, is exactly a string, has limits, min + 1, max + 1, has pattern, other constraints, 0].
pub fn schema<H: schemars::JsonSchema>(g: &mut schemars::gen::SchemaGenerator, s: &mut Sink, out: &mut [u64; 8]) {
    let r = H::json_schema(g);
    *out = [0; 8];
    if let Schema::Object(o) = &r {
        out[0] = 1;
        if let Some(SingleOrVec::Single(t)) = &o.instance_type { if **t == InstanceType::String { out[1] = 1; } }
        if let Some(v) = &o.string {
            out[2] = 1;
            if let Some(m) = v.min_length { out[3] = m as u64 + 1; }
            if let Some(m) = v.max_length { out[4] = m as u64 + 1; }
            if let Some(p) = &v.pattern { out[5] = 1; let _ = s.write_str(p); }
        }
        if o.enum_values.is_some() || o.const_value.is_some() || o.subschemas.is_some() || o.reference.is_some() || o.format.is_some() { out[6] = 1; }
    }
    core::mem::forget(r);
}
