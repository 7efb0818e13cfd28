//! C11: looking items up by handle and following references between items.
use crate::c_api::*;
use crate::fw::*;
use crate::gen::*;
use crate::lab;
use crate::rng::Rng;
use crate::rt::*;
use crate::tab::{stored, tab};
use crate::types::*;
use dxf::entities::*;
use dxf::enums::AcadVersion;
use dxf::objects::*;
use dxf::{Block, Drawing, DrawingItem, DrawingItemMut, Handle};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

enum Host {
    E(Entity),
    O(Object),
}
struct Ptr {
    class: &'static str,
    kind: &'static str,
    field: &'static str,
    list: bool,
    /// the kind of item the typed accessors take
    want: Option<&'static str>,
    /// the only specific kind they accept
    only: Option<&'static str>,
    /// None: the target is not of the type the setter takes; Some(false): refused
    set: fn(&mut Host, &mut Drawing, u64) -> Option<bool>,
    get: fn(&Host, &Drawing) -> Vec<(usize, Value)>,
}
fn item_json(i: DrawingItem) -> (usize, Value) {
    match i {
        DrawingItem::AppId(x) => (0, jv(x)),
        DrawingItem::BlockRecord(x) => (1, jv(x)),
        DrawingItem::DimStyle(x) => (2, jv(x)),
        DrawingItem::Layer(x) => (3, jv(x)),
        DrawingItem::LineType(x) => (4, jv(x)),
        DrawingItem::Style(x) => (5, jv(x)),
        DrawingItem::Ucs(x) => (6, jv(x)),
        DrawingItem::View(x) => (7, jv(x)),
        DrawingItem::ViewPort(x) => (8, jv(x)),
        DrawingItem::Block(x) => (9, jv(x)),
        DrawingItem::Entity(x) => (10, jv(x)),
        DrawingItem::Object(x) => (11, jv(x)),
    }
}
/// calls `f` with the item that has the handle, found by walking the lists
fn with_mut<T>(d: &mut Drawing, h: u64, f: impl FnOnce(&mut DrawingItemMut) -> T) -> Option<T> {
    macro_rules! look {
        ($it:ident, $v:ident, $($p:ident).+) => {
            if d.$it().any(|x| x.$($p).+.0 == h) {
                let x = d.$it().find(|x| x.$($p).+.0 == h).unwrap();
                return Some(f(&mut DrawingItemMut::$v(x)));
            }
        };
    }
    look!(app_ids_mut, AppId, handle);
    look!(block_records_mut, BlockRecord, handle);
    look!(dim_styles_mut, DimStyle, handle);
    look!(layers_mut, Layer, handle);
    look!(line_types_mut, LineType, handle);
    look!(styles_mut, Style, handle);
    look!(ucss_mut, Ucs, handle);
    look!(views_mut, View, handle);
    look!(view_ports_mut, ViewPort, handle);
    look!(blocks_mut, Block, handle);
    look!(entities_mut, Entity, common.handle);
    look!(objects_mut, Object, common.handle);
    None
}
const PTRS: &[Ptr] = &[
    Ptr {
        class: "entity", kind: "*", field: "owner", list: false, want: None, only: None,
        set: |h, d, t| if let Host::E(Entity { common: x, .. }) = h { with_mut(d, t, |it| x.set_owner(it)).map(|_| true) } else { None },
        get: |h, d| if let Host::E(Entity { common: x, .. }) = h { x.owner(d).into_iter().map(|i| item_json(i)).collect() } else { vec![] },
    },
    Ptr {
        class: "entity", kind: "*", field: "plot_style", list: false, want: None, only: None,
        set: |h, d, t| if let Host::E(Entity { common: x, .. }) = h { with_mut(d, t, |it| x.set_plot_style(it)).map(|_| true) } else { None },
        get: |h, d| if let Host::E(Entity { common: x, .. }) = h { x.plot_style(d).into_iter().map(|i| item_json(i)).collect() } else { vec![] },
    },
    Ptr {
        class: "entity", kind: "*", field: "material", list: false, want: Some("Object"), only: Some("Material"),
        set: |h, d, t| if let Host::E(Entity { common: x, .. }) = h { d.objects().find(|i| i.common.handle.0 == t).map(|i| x.set_material(i).is_ok()) } else { None },
        get: |h, d| if let Host::E(Entity { common: x, .. }) = h { x.material(d).into_iter().map(|i| item_json(DrawingItem::Object(i))).collect() } else { vec![] },
    },
    Ptr {
        class: "entity", kind: "Solid3D", field: "history_object", list: false, want: None, only: None,
        set: |h, d, t| if let Host::E(Entity { specific: EntityType::Solid3D(x), .. }) = h { with_mut(d, t, |it| x.set_history_object(it)).map(|_| true) } else { None },
        get: |h, d| if let Host::E(Entity { specific: EntityType::Solid3D(x), .. }) = h { x.history_object(d).into_iter().map(|i| item_json(i)).collect() } else { vec![] },
    },
    Ptr {
        class: "entity", kind: "AttributeDefinition", field: "secondary_attributes", list: true, want: None, only: None,
        set: |h, d, t| if let Host::E(Entity { specific: EntityType::AttributeDefinition(x), .. }) = h { with_mut(d, t, |it| x.add_secondary_attributes(it)).map(|_| true) } else { None },
        get: |h, d| if let Host::E(Entity { specific: EntityType::AttributeDefinition(x), .. }) = h { x.secondary_attributes(d).into_iter().map(|i| item_json(i)).collect() } else { vec![] },
    },
    Ptr {
        class: "entity", kind: "Attribute", field: "secondary_attributes", list: true, want: None, only: None,
        set: |h, d, t| if let Host::E(Entity { specific: EntityType::Attribute(x), .. }) = h { with_mut(d, t, |it| x.add_secondary_attributes(it)).map(|_| true) } else { None },
        get: |h, d| if let Host::E(Entity { specific: EntityType::Attribute(x), .. }) = h { x.secondary_attributes(d).into_iter().map(|i| item_json(i)).collect() } else { vec![] },
    },
    Ptr {
        class: "entity", kind: "MLine", field: "style", list: false, want: Some("Style"), only: None,
        set: |h, d, t| if let Host::E(Entity { specific: EntityType::MLine(x), .. }) = h { d.styles().find(|i| i.handle.0 == t).map(|i| { x.set_style(i); true }) } else { None },
        get: |h, d| if let Host::E(Entity { specific: EntityType::MLine(x), .. }) = h { x.style(d).into_iter().map(|i| item_json(DrawingItem::Style(i))).collect() } else { vec![] },
    },
    Ptr {
        class: "entity", kind: "Section", field: "geometry_settings", list: false, want: None, only: None,
        set: |h, d, t| if let Host::E(Entity { specific: EntityType::Section(x), .. }) = h { with_mut(d, t, |it| x.set_geometry_settings(it)).map(|_| true) } else { None },
        get: |h, d| if let Host::E(Entity { specific: EntityType::Section(x), .. }) = h { x.geometry_settings(d).into_iter().map(|i| item_json(i)).collect() } else { vec![] },
    },
    Ptr {
        class: "entity", kind: "DgnUnderlay", field: "object", list: false, want: Some("Object"), only: None,
        set: |h, d, t| if let Host::E(Entity { specific: EntityType::DgnUnderlay(x), .. }) = h { d.objects().find(|i| i.common.handle.0 == t).map(|i| { x.set_object(i); true }) } else { None },
        get: |h, d| if let Host::E(Entity { specific: EntityType::DgnUnderlay(x), .. }) = h { x.object(d).into_iter().map(|i| item_json(DrawingItem::Object(i))).collect() } else { vec![] },
    },
    Ptr {
        class: "entity", kind: "DwfUnderlay", field: "object", list: false, want: Some("Object"), only: None,
        set: |h, d, t| if let Host::E(Entity { specific: EntityType::DwfUnderlay(x), .. }) = h { d.objects().find(|i| i.common.handle.0 == t).map(|i| { x.set_object(i); true }) } else { None },
        get: |h, d| if let Host::E(Entity { specific: EntityType::DwfUnderlay(x), .. }) = h { x.object(d).into_iter().map(|i| item_json(DrawingItem::Object(i))).collect() } else { vec![] },
    },
    Ptr {
        class: "entity", kind: "PdfUnderlay", field: "object", list: false, want: Some("Object"), only: None,
        set: |h, d, t| if let Host::E(Entity { specific: EntityType::PdfUnderlay(x), .. }) = h { d.objects().find(|i| i.common.handle.0 == t).map(|i| { x.set_object(i); true }) } else { None },
        get: |h, d| if let Host::E(Entity { specific: EntityType::PdfUnderlay(x), .. }) = h { x.object(d).into_iter().map(|i| item_json(DrawingItem::Object(i))).collect() } else { vec![] },
    },
    Ptr {
        class: "object", kind: "*", field: "owner", list: false, want: None, only: None,
        set: |h, d, t| if let Host::O(Object { common: x, .. }) = h { with_mut(d, t, |it| x.set_owner(it)).map(|_| true) } else { None },
        get: |h, d| if let Host::O(Object { common: x, .. }) = h { x.owner(d).into_iter().map(|i| item_json(i)).collect() } else { vec![] },
    },
    Ptr {
        class: "object", kind: "DimensionAssoc", field: "dimension", list: false, want: Some("Entity"), only: None,
        set: |h, d, t| if let Host::O(Object { specific: ObjectType::DimensionAssoc(x), .. }) = h { d.entities().find(|i| i.common.handle.0 == t).map(|i| { x.set_dimension(i); true }) } else { None },
        get: |h, d| if let Host::O(Object { specific: ObjectType::DimensionAssoc(x), .. }) = h { x.dimension(d).into_iter().map(|i| item_json(DrawingItem::Entity(i))).collect() } else { vec![] },
    },
    Ptr {
        class: "object", kind: "DimensionAssoc", field: "main_object", list: false, want: None, only: None,
        set: |h, d, t| if let Host::O(Object { specific: ObjectType::DimensionAssoc(x), .. }) = h { with_mut(d, t, |it| x.set_main_object(it)).map(|_| true) } else { None },
        get: |h, d| if let Host::O(Object { specific: ObjectType::DimensionAssoc(x), .. }) = h { x.main_object(d).into_iter().map(|i| item_json(i)).collect() } else { vec![] },
    },
    Ptr {
        class: "object", kind: "DimensionAssoc", field: "main_object_xref", list: false, want: None, only: None,
        set: |h, d, t| if let Host::O(Object { specific: ObjectType::DimensionAssoc(x), .. }) = h { with_mut(d, t, |it| x.set_main_object_xref(it)).map(|_| true) } else { None },
        get: |h, d| if let Host::O(Object { specific: ObjectType::DimensionAssoc(x), .. }) = h { x.main_object_xref(d).into_iter().map(|i| item_json(i)).collect() } else { vec![] },
    },
    Ptr {
        class: "object", kind: "DimensionAssoc", field: "intersection_object", list: false, want: None, only: None,
        set: |h, d, t| if let Host::O(Object { specific: ObjectType::DimensionAssoc(x), .. }) = h { with_mut(d, t, |it| x.set_intersection_object(it)).map(|_| true) } else { None },
        get: |h, d| if let Host::O(Object { specific: ObjectType::DimensionAssoc(x), .. }) = h { x.intersection_object(d).into_iter().map(|i| item_json(i)).collect() } else { vec![] },
    },
    Ptr {
        class: "object", kind: "DimensionAssoc", field: "insertion_object_xref", list: false, want: None, only: None,
        set: |h, d, t| if let Host::O(Object { specific: ObjectType::DimensionAssoc(x), .. }) = h { with_mut(d, t, |it| x.set_insertion_object_xref(it)).map(|_| true) } else { None },
        get: |h, d| if let Host::O(Object { specific: ObjectType::DimensionAssoc(x), .. }) = h { x.insertion_object_xref(d).into_iter().map(|i| item_json(i)).collect() } else { vec![] },
    },
    Ptr {
        class: "object", kind: "Field", field: "child_fields", list: true, want: Some("Object"), only: Some("Field"),
        set: |h, d, t| if let Host::O(Object { specific: ObjectType::Field(x), .. }) = h { d.objects().find(|i| i.common.handle.0 == t).map(|i| x.add_child_fields(i).is_ok()) } else { None },
        get: |h, d| if let Host::O(Object { specific: ObjectType::Field(x), .. }) = h { x.child_fields(d).into_iter().map(|i| item_json(DrawingItem::Object(i))).collect() } else { vec![] },
    },
    Ptr {
        class: "object", kind: "Field", field: "objects", list: true, want: Some("Object"), only: None,
        set: |h, d, t| if let Host::O(Object { specific: ObjectType::Field(x), .. }) = h { d.objects().find(|i| i.common.handle.0 == t).map(|i| { x.add_objects(i); true }) } else { None },
        get: |h, d| if let Host::O(Object { specific: ObjectType::Field(x), .. }) = h { x.objects(d).into_iter().map(|i| item_json(DrawingItem::Object(i))).collect() } else { vec![] },
    },
    Ptr {
        class: "object", kind: "Group", field: "entities", list: true, want: Some("Entity"), only: None,
        set: |h, d, t| if let Host::O(Object { specific: ObjectType::Group(x), .. }) = h { d.entities().find(|i| i.common.handle.0 == t).map(|i| { x.add_entities(i); true }) } else { None },
        get: |h, d| if let Host::O(Object { specific: ObjectType::Group(x), .. }) = h { x.entities(d).into_iter().map(|i| item_json(DrawingItem::Entity(i))).collect() } else { vec![] },
    },
    Ptr {
        class: "object", kind: "IdBuffer", field: "entities", list: true, want: Some("Entity"), only: None,
        set: |h, d, t| if let Host::O(Object { specific: ObjectType::IdBuffer(x), .. }) = h { d.entities().find(|i| i.common.handle.0 == t).map(|i| { x.add_entities(i); true }) } else { None },
        get: |h, d| if let Host::O(Object { specific: ObjectType::IdBuffer(x), .. }) = h { x.entities(d).into_iter().map(|i| item_json(DrawingItem::Entity(i))).collect() } else { vec![] },
    },
    Ptr {
        class: "object", kind: "LayerIndex", field: "id_buffers", list: true, want: None, only: None,
        set: |h, d, t| if let Host::O(Object { specific: ObjectType::LayerIndex(x), .. }) = h { with_mut(d, t, |it| x.add_id_buffers(it)).map(|_| true) } else { None },
        get: |h, d| if let Host::O(Object { specific: ObjectType::LayerIndex(x), .. }) = h { x.id_buffers(d).into_iter().map(|i| item_json(i)).collect() } else { vec![] },
    },
    Ptr {
        class: "object", kind: "Layout", field: "viewport", list: false, want: Some("ViewPort"), only: None,
        set: |h, d, t| if let Host::O(Object { specific: ObjectType::Layout(x), .. }) = h { d.view_ports().find(|i| i.handle.0 == t).map(|i| { x.set_viewport(i); true }) } else { None },
        get: |h, d| if let Host::O(Object { specific: ObjectType::Layout(x), .. }) = h { x.viewport(d).into_iter().map(|i| item_json(DrawingItem::ViewPort(i))).collect() } else { vec![] },
    },
    Ptr {
        class: "object", kind: "Layout", field: "table_record", list: false, want: None, only: None,
        set: |h, d, t| if let Host::O(Object { specific: ObjectType::Layout(x), .. }) = h { with_mut(d, t, |it| x.set_table_record(it)).map(|_| true) } else { None },
        get: |h, d| if let Host::O(Object { specific: ObjectType::Layout(x), .. }) = h { x.table_record(d).into_iter().map(|i| item_json(i)).collect() } else { vec![] },
    },
    Ptr {
        class: "object", kind: "Layout", field: "table_record_base", list: false, want: None, only: None,
        set: |h, d, t| if let Host::O(Object { specific: ObjectType::Layout(x), .. }) = h { with_mut(d, t, |it| x.set_table_record_base(it)).map(|_| true) } else { None },
        get: |h, d| if let Host::O(Object { specific: ObjectType::Layout(x), .. }) = h { x.table_record_base(d).into_iter().map(|i| item_json(i)).collect() } else { vec![] },
    },
    Ptr {
        class: "object", kind: "LightList", field: "lights", list: true, want: Some("Entity"), only: Some("Light"),
        set: |h, d, t| if let Host::O(Object { specific: ObjectType::LightList(x), .. }) = h { d.entities().find(|i| i.common.handle.0 == t).map(|i| x.add_lights(i).is_ok()) } else { None },
        get: |h, d| if let Host::O(Object { specific: ObjectType::LightList(x), .. }) = h { x.lights(d).into_iter().map(|i| item_json(DrawingItem::Entity(i))).collect() } else { vec![] },
    },
    Ptr {
        class: "object", kind: "MLeaderStyle", field: "line_leader_type", list: false, want: None, only: None,
        set: |h, d, t| if let Host::O(Object { specific: ObjectType::MLeaderStyle(x), .. }) = h { with_mut(d, t, |it| x.set_line_leader_type(it)).map(|_| true) } else { None },
        get: |h, d| if let Host::O(Object { specific: ObjectType::MLeaderStyle(x), .. }) = h { x.line_leader_type(d).into_iter().map(|i| item_json(i)).collect() } else { vec![] },
    },
    Ptr {
        class: "object", kind: "MLeaderStyle", field: "arrowhead", list: false, want: None, only: None,
        set: |h, d, t| if let Host::O(Object { specific: ObjectType::MLeaderStyle(x), .. }) = h { with_mut(d, t, |it| x.set_arrowhead(it)).map(|_| true) } else { None },
        get: |h, d| if let Host::O(Object { specific: ObjectType::MLeaderStyle(x), .. }) = h { x.arrowhead(d).into_iter().map(|i| item_json(i)).collect() } else { vec![] },
    },
    Ptr {
        class: "object", kind: "MLeaderStyle", field: "m_text_style", list: false, want: None, only: None,
        set: |h, d, t| if let Host::O(Object { specific: ObjectType::MLeaderStyle(x), .. }) = h { with_mut(d, t, |it| x.set_m_text_style(it)).map(|_| true) } else { None },
        get: |h, d| if let Host::O(Object { specific: ObjectType::MLeaderStyle(x), .. }) = h { x.m_text_style(d).into_iter().map(|i| item_json(i)).collect() } else { vec![] },
    },
    Ptr {
        class: "object", kind: "MLeaderStyle", field: "block_content", list: false, want: None, only: None,
        set: |h, d, t| if let Host::O(Object { specific: ObjectType::MLeaderStyle(x), .. }) = h { with_mut(d, t, |it| x.set_block_content(it)).map(|_| true) } else { None },
        get: |h, d| if let Host::O(Object { specific: ObjectType::MLeaderStyle(x), .. }) = h { x.block_content(d).into_iter().map(|i| item_json(i)).collect() } else { vec![] },
    },
    Ptr {
        class: "object", kind: "PlotSettings", field: "shade_plot_object", list: false, want: None, only: None,
        set: |h, d, t| if let Host::O(Object { specific: ObjectType::PlotSettings(x), .. }) = h { with_mut(d, t, |it| x.set_shade_plot_object(it)).map(|_| true) } else { None },
        get: |h, d| if let Host::O(Object { specific: ObjectType::PlotSettings(x), .. }) = h { x.shade_plot_object(d).into_iter().map(|i| item_json(i)).collect() } else { vec![] },
    },
    Ptr {
        class: "object", kind: "RapidRTRenderEnvironment", field: "custom_background", list: false, want: None, only: None,
        set: |h, d, t| if let Host::O(Object { specific: ObjectType::RapidRTRenderEnvironment(x), .. }) = h { with_mut(d, t, |it| x.set_custom_background(it)).map(|_| true) } else { None },
        get: |h, d| if let Host::O(Object { specific: ObjectType::RapidRTRenderEnvironment(x), .. }) = h { x.custom_background(d).into_iter().map(|i| item_json(i)).collect() } else { vec![] },
    },
    Ptr {
        class: "object", kind: "SectionManager", field: "section_entities", list: true, want: Some("Entity"), only: None,
        set: |h, d, t| if let Host::O(Object { specific: ObjectType::SectionManager(x), .. }) = h { d.entities().find(|i| i.common.handle.0 == t).map(|i| { x.add_section_entities(i); true }) } else { None },
        get: |h, d| if let Host::O(Object { specific: ObjectType::SectionManager(x), .. }) = h { x.section_entities(d).into_iter().map(|i| item_json(DrawingItem::Entity(i))).collect() } else { vec![] },
    },
    Ptr {
        class: "object", kind: "SectionSettings", field: "source_objects", list: true, want: Some("Object"), only: None,
        set: |h, d, t| if let Host::O(Object { specific: ObjectType::SectionSettings(x), .. }) = h { d.objects().find(|i| i.common.handle.0 == t).map(|i| { x.add_source_objects(i); true }) } else { None },
        get: |h, d| if let Host::O(Object { specific: ObjectType::SectionSettings(x), .. }) = h { x.source_objects(d).into_iter().map(|i| item_json(DrawingItem::Object(i))).collect() } else { vec![] },
    },
    Ptr {
        class: "object", kind: "SectionSettings", field: "destination_object", list: false, want: Some("Object"), only: None,
        set: |h, d, t| if let Host::O(Object { specific: ObjectType::SectionSettings(x), .. }) = h { d.objects().find(|i| i.common.handle.0 == t).map(|i| { x.set_destination_object(i); true }) } else { None },
        get: |h, d| if let Host::O(Object { specific: ObjectType::SectionSettings(x), .. }) = h { x.destination_object(d).into_iter().map(|i| item_json(DrawingItem::Object(i))).collect() } else { vec![] },
    },
    Ptr {
        class: "object", kind: "SortentsTable", field: "entities", list: true, want: Some("Entity"), only: None,
        set: |h, d, t| if let Host::O(Object { specific: ObjectType::SortentsTable(x), .. }) = h { d.entities().find(|i| i.common.handle.0 == t).map(|i| { x.add_entities(i); true }) } else { None },
        get: |h, d| if let Host::O(Object { specific: ObjectType::SortentsTable(x), .. }) = h { x.entities(d).into_iter().map(|i| item_json(DrawingItem::Entity(i))).collect() } else { vec![] },
    },
    Ptr {
        class: "object", kind: "SortentsTable", field: "sort_items", list: true, want: None, only: None,
        set: |h, d, t| if let Host::O(Object { specific: ObjectType::SortentsTable(x), .. }) = h { with_mut(d, t, |it| x.add_sort_items(it)).map(|_| true) } else { None },
        get: |h, d| if let Host::O(Object { specific: ObjectType::SortentsTable(x), .. }) = h { x.sort_items(d).into_iter().map(|i| item_json(i)).collect() } else { vec![] },
    },
    Ptr {
        class: "object", kind: "SunStudy", field: "page_setup_wizard", list: false, want: None, only: None,
        set: |h, d, t| if let Host::O(Object { specific: ObjectType::SunStudy(x), .. }) = h { with_mut(d, t, |it| x.set_page_setup_wizard(it)).map(|_| true) } else { None },
        get: |h, d| if let Host::O(Object { specific: ObjectType::SunStudy(x), .. }) = h { x.page_setup_wizard(d).into_iter().map(|i| item_json(i)).collect() } else { vec![] },
    },
    Ptr {
        class: "object", kind: "SunStudy", field: "view", list: false, want: Some("View"), only: None,
        set: |h, d, t| if let Host::O(Object { specific: ObjectType::SunStudy(x), .. }) = h { d.views().find(|i| i.handle.0 == t).map(|i| { x.set_view(i); true }) } else { None },
        get: |h, d| if let Host::O(Object { specific: ObjectType::SunStudy(x), .. }) = h { x.view(d).into_iter().map(|i| item_json(DrawingItem::View(i))).collect() } else { vec![] },
    },
    Ptr {
        class: "object", kind: "SunStudy", field: "visual_style", list: false, want: None, only: None,
        set: |h, d, t| if let Host::O(Object { specific: ObjectType::SunStudy(x), .. }) = h { with_mut(d, t, |it| x.set_visual_style(it)).map(|_| true) } else { None },
        get: |h, d| if let Host::O(Object { specific: ObjectType::SunStudy(x), .. }) = h { x.visual_style(d).into_iter().map(|i| item_json(i)).collect() } else { vec![] },
    },
    Ptr {
        class: "object", kind: "SunStudy", field: "text_style", list: false, want: None, only: None,
        set: |h, d, t| if let Host::O(Object { specific: ObjectType::SunStudy(x), .. }) = h { with_mut(d, t, |it| x.set_text_style(it)).map(|_| true) } else { None },
        get: |h, d| if let Host::O(Object { specific: ObjectType::SunStudy(x), .. }) = h { x.text_style(d).into_iter().map(|i| item_json(i)).collect() } else { vec![] },
    },
];
fn handle_of(ci: usize, v: &Value) -> u64 {
    if ci >= ENTS { v["common"]["handle"].as_u64().unwrap_or(0) } else { v["handle"].as_u64().unwrap_or(0) }
}
/// every top-level item by handle
fn index(d: &Drawing) -> BTreeMap<u64, (usize, Value)> {
    let mut m = BTreeMap::new();
    for (ci, c) in COLLS.iter().enumerate() {
        for v in (c.list)(d) {
            m.insert(handle_of(ci, &v), (ci, v));
        }
    }
    m
}
fn populated(r: &mut Rng, v: AcadVersion) -> Drawing {
    let vi = vidx(v);
    let mut d = new_drawing(v);
    d.header.handles_enabled = true;
    if r.chance(1, 4) {
        let n = r.below(5000);
        for _ in 0..r.below(4) {
            // handles that are not consecutive
            let mut p = Polyline::default();
            for _ in 0..1 + n % 37 {
                p.add_vertex(&mut d, Vertex::default());
            }
        }
    }
    for _ in 0..if crate::lab::is_large() { crate::big::size(r, 800) } else { 4 + r.below(16) } {
        let ci = match r.below(5) { 0 => ENTS, 1 => OBJS, 2 => BLOCKS, _ => r.below(9) };
        let it = match ci {
            ENTS => { let k = *r.pick(&free_entities()); entity_json(k, vi, r, 1, 9) }
            _ => any_item(ci, vi, r),
        };
        (COLLS[ci].add)(&mut d, &it);
    }
    d
}
// ---------------------------------------------------------------- lookup
fn check_lookup(c: &mut Case, d: &Drawing, when: &str) {
    let ix = index(d);
    let taken: BTreeSet<u64> = all_handles(&jv(d)).into_iter().map(|x| x.1).collect();
    for (h, (ci, v)) in &ix {
        c.eval(format!("{}{}{}", when, h, COLLS[*ci].name));
        c.count(&format!("looked up {}", COLLS[*ci].name), 1);
        match d.item_by_handle(Handle(*h)) {
            None => c.fail(format!("lookup:none:{}", COLLS[*ci].name), format!("{}: no item for handle {:X} of a {}", when, h, COLLS[*ci].name)),
            Some(i) => {
                let g = i.handle().0;
                let (cj, w) = item_json(i);
                if cj != *ci || w != *v || g != *h {
                    c.fail(format!("lookup:other:{}", COLLS[*ci].name), format!("{}: handle {:X} of a {} gives a {} with handle {:X}", when, h, COLLS[*ci].name, COLLS[cj].name, g));
                }
            }
        }
    }
    let max = taken.iter().max().copied().unwrap_or(0);
    for h in [0, max + 1, max + 1000, u64::MAX, u64::MAX / 2, c.rng.next()] {
        if !taken.contains(&h) && d.item_by_handle(Handle(h)).is_some() {
            c.fail("lookup:ghost", format!("{}: an item is found for handle {:X}, which nobody has", when, h));
        }
    }
}
fn lookup_case(c: &mut Case) {
    let mut r = c.rng.clone();
    let v = VERSIONS[R13 + r.below(VERSIONS.len() - R13)];
    let vi = vidx(v);
    let mut d = populated(&mut r, v);
    check_lookup(c, &d, "built");
    for _ in 0..3 {
        // items leave; their handles must not be found any more
        let ci = r.below(12);
        let l = (COLLS[ci].list)(&d);
        if l.is_empty() {
            continue;
        }
        let i = r.below(l.len());
        let h = handle_of(ci, &l[i]);
        (COLLS[ci].remove)(&mut d, i);
        if d.item_by_handle(Handle(h)).is_some() || d.item_by_handle_mut(Handle(h)).is_some() {
            c.fail("lookup:removed", format!("handle {:X} of a removed {} still gives an item", h, COLLS[ci].name));
        }
    }
    check_lookup(c, &d, "after removals");
    // change items through the lookup
    for _ in 0..4 {
        let ix = index(&d);
        let hs: Vec<u64> = ix.keys().copied().collect();
        if hs.is_empty() {
            break;
        }
        let h = *r.pick(&hs);
        let (ci, old) = &ix[&h];
        let before = jv(&d);
        {
            match d.item_by_handle_mut(Handle(h)) {
                None => { c.fail(format!("mut:none:{}", COLLS[*ci].name), format!("no mutable item for handle {:X}", h)); break; }
                Some(i) => {
                    let g = i.handle().0;
                    let (cj, w) = item_json(i.to_drawing_item());
                    if (cj, &w, g) != (*ci, old, h) {
                        c.fail(format!("mut:other:{}", COLLS[*ci].name), format!("handle {:X} of a {} gives a mutable {} with handle {:X}", h, COLLS[*ci].name, COLLS[cj].name, g));
                    }
                }
            }
        }
        let mut new = any_item(*ci, vi, &mut r);
        if *ci >= ENTS { new["common"]["handle"] = json!(h) } else { new["handle"] = json!(h) }
        if *ci == ENTS { new["specific"] = json!({"Circle": jv(&Circle::default())}) }
        if *ci == BLOCKS { new["entities"] = old["entities"].clone() }
        if !(COLLS[*ci].put_by_handle)(&mut d, Handle(h), &new) {
            c.fail(format!("mut:kind:{}", COLLS[*ci].name), format!("the mutable item of handle {:X} is not a {}", h, COLLS[*ci].name));
        }
        let mut want = before;
        for x in want[COLLS[*ci].key].as_array_mut().unwrap() {
            if handle_of(*ci, x) == h {
                *x = new.clone();
            }
        }
        if jv(&d) != want {
            c.fail(format!("mut:change:{}", COLLS[*ci].name), format!("changing the item of handle {:X} changed something else, or nothing", h));
        }
        // set_handle on a copy of the item
        let mut e = d.clone();
        let free = 0x7000_0000 + r.below(1000) as u64;
        if let Some(mut i) = e.item_by_handle_mut(Handle(h)) {
            i.set_handle(Handle(free));
            if i.handle().0 != free {
                c.fail(format!("set_handle:{}", COLLS[*ci].name), "the handle that was set is not returned");
            }
        }
        match e.item_by_handle(Handle(free)).map(item_json) {
            Some(i) if i.0 == *ci => (),
            _ => c.fail(format!("set_handle:lookup:{}", COLLS[*ci].name), "an item is not found under the handle it was given"),
        }
        c.eval(format!("mut{}{}", h, COLLS[*ci].name));
    }
    if let Ok(l) = save(&d, lab::any_fmt(&mut r)).and_then(|b| load(&b)) {
        check_lookup(c, &l, "reloaded");
    }
}
/// lookups in files whose handles share digits
fn far_case(c: &mut Case) {
    let mut r = c.rng.clone();
    let v = VERSIONS[R13 + r.below(VERSIONS.len() - R13)];
    let d = populated(&mut r, v);
    let fmt = lab::any_fmt(&mut r);
    let f = lab::file_of(&d, fmt);
    let mut ps = f.pairs.clone();
    let own = own_handle_pairs(&ps);
    let shift = *r.pick(&[8u32, 16, 31, 32, 40, 48, 60]);
    let mut taken = BTreeSet::new();
    let low = 1 + r.below(4) as u64;
    for i in own {
        let h = loop {
            let h = match r.below(3) {
                0 => r.below(64) as u64 + 1,
                1 => (r.below(7) as u64) << shift | (1 + r.below(low as usize + 2) as u64),
                _ => r.next() >> (1 + r.below(55)) | 1,
            };
            if h != 0 && taken.insert(h) {
                break h;
            }
        };
        ps[i] = crate::mini::Pair::s(5, &format!("{:X}", h));
    }
    let b = lab::render(&ps, fmt, v);
    match load(&b) {
        Ok(l) => check_lookup(c, &l, "renumbered"),
        Err(e) => c.inconclusive.push(e),
    }
    if !c.failures.is_empty() {
        c.attach("file.dxf", &b);
    }
}
// ---------------------------------------------------------------- references
fn host(d: &Drawing, p: &Ptr, h: u64) -> Option<Host> {
    if p.class == "entity" {
        d.entities().find(|e| e.common.handle.0 == h).cloned().map(Host::E)
    } else {
        d.objects().find(|e| e.common.handle.0 == h).cloned().map(Host::O)
    }
}
fn put(d: &mut Drawing, hs: Host, h: u64) {
    match hs {
        Host::E(x) => *d.entities_mut().find(|e| e.common.handle.0 == h).expect("harness: host") = x,
        Host::O(x) => *d.objects_mut().find(|e| e.common.handle.0 == h).expect("harness: host") = x,
    }
}
fn json_of(hs: &Host) -> Value { match hs { Host::E(x) => jv(x), Host::O(x) => jv(x) } }
/// is the item of the kind the getter may return?
fn fits(p: &Ptr, it: &(usize, Value)) -> bool {
    p.want.map(|w| COLLS[it.0].name == w).unwrap_or(true) && p.only.map(|o| kind_of(&it.1) == o).unwrap_or(true)
}
type Refs = BTreeMap<(u64, usize), Vec<u64>>;
fn check_refs(c: &mut Case, d: &Drawing, refs: &Refs, when: &str, vi: Option<usize>) {
    let ix = index(d);
    for ((h, pi), ts) in refs {
        let p = &PTRS[*pi];
        let hs = match host(d, p, *h) { Some(x) => x, None => { c.count("host gone", 1); continue; } };
        let k = kind_of(&json_of(&hs));
        if let Some(vi) = vi {
            let f = format!("/__{}_handle", p.field);
            let n = format!("{}:{}", p.class, p.kind);
            let ok = tab()[&n].leaves.iter().find(|l| l.leaf.ptr == f).map(|l| stored(l.st[vi])).unwrap_or(false);
            if !ok || p.kind == "*" && clash(p.class, &k, &f) {
                c.count("not stored in the version", 1);
                continue;
            }
        }
        let want: Vec<&(usize, Value)> = ts.iter().filter_map(|t| ix.get(t)).filter(|i| fits(p, i)).collect();
        let got = (p.get)(&hs, d);
        c.eval(format!("{}{}{}{:?}", when, k, p.field, ts));
        c.count(&format!("followed {}.{} {}", if p.kind == "*" { p.class } else { p.kind }, p.field, if vi.is_some() { "after loading" } else { "" }), 1);
        if got.len() != want.len() || got.iter().zip(&want).any(|(a, b)| a.0 != b.0 || a.1 != b.1) {
            let g: Vec<String> = got.iter().map(|x| format!("{} {:X}", COLLS[x.0].name, handle_of(x.0, &x.1))).collect();
            let w: Vec<String> = want.iter().map(|x| format!("{} {:X}", COLLS[x.0].name, handle_of(x.0, &x.1))).collect();
            c.fail(format!("{}:{}:{}.{}", if vi.is_some() { "reloaded" } else { "set" }, p.class, p.kind, p.field), format!("{}: {} of {} {:X} gives {:?}, not {:?}", when, p.field, k, h, g, w));
        }
    }
}
fn refs_case(c: &mut Case) {
    let mut r = c.rng.clone();
    let v = VERSIONS[R13 + r.below(VERSIONS.len() - R13)];
    let vi = vidx(v);
    let mut d = populated(&mut r, v);
    let mut refs: Refs = BTreeMap::new();
    let base = (c.idx as usize * 5) % PTRS.len();
    let picks: Vec<usize> = (0..8).map(|i| if i < 5 { (base + i) % PTRS.len() } else { r.below(PTRS.len()) }).collect();
    let mut hosts: Vec<(u64, usize)> = vec![];
    for &pi in &picks {
        let p = &PTRS[pi];
        let kind = if p.kind != "*" { p.kind } else if p.class == "entity" { *r.pick(&free_entities()) } else { *r.pick(OBJECTS) };
        let h = if p.class == "entity" {
            let e = entity_json(kind, vi, &mut r, 1, 8);
            d.add_entity(to_entity(&e)).common.handle.0
        } else {
            let e = object_json(kind, vi, &mut r, 1, 8);
            d.add_object(to_object(&e)).common.handle.0
        };
        hosts.push((h, pi));
    }
    // the right targets exist
    d.add_object(Object::new(ObjectType::Material(Default::default())));
    d.add_object(Object::new(ObjectType::Field(Default::default())));
    d.add_entity(Entity::new(EntityType::Light(Default::default())));
    for (h, pi) in &hosts {
        // start without references
        let p = &PTRS[*pi];
        let mut j = json_of(&host(&d, p, *h).unwrap());
        let f = format!("__{}_handle", p.field);
        let k = kind_of(&j);
        let slot = if p.kind == "*" { &mut j["common"] } else { &mut j["specific"][&k] };
        assert!(!slot[&f].is_null(), "harness: {} {}", k, f);
        slot[&f] = if p.list { json!([]) } else { json!(0) };
        put(&mut d, if p.class == "entity" { Host::E(to_entity(&j)) } else { Host::O(to_object(&j)) }, *h);
        refs.insert((*h, *pi), vec![]);
    }
    check_refs(c, &d, &refs, "empty", None);
    for _ in 0..20 {
        let (h, pi) = *r.pick(&hosts);
        let p = &PTRS[pi];
        let ix = index(&d);
        let all: Vec<u64> = ix.keys().copied().collect();
        let fit: Vec<u64> = ix.iter().filter(|(_, i)| fits(p, i)).map(|x| *x.0).collect();
        let t = if !fit.is_empty() && r.chance(3, 4) { *r.pick(&fit) } else { *r.pick(&all) };
        let mut hs = host(&d, p, h).unwrap();
        let before = json_of(&hs);
        let res = (p.set)(&mut hs, &mut d, t);
        let after = json_of(&hs);
        let accept = fits(p, &ix[&t]);
        match res {
            None => continue, // not the type the setter takes
            Some(ok) => {
                if ok != accept {
                    c.fail(format!("accept:{}.{}", p.kind, p.field), format!("{} of {} {} a {}", p.field, p.kind, if ok { "accepts" } else { "refuses" }, kind_of(&ix[&t].1)));
                }
                let mut o = vec![];
                diff("", &before, &after, true, &mut o);
                let f = format!("/__{}_handle", p.field);
                if o.iter().any(|x| !x.contains(&f)) || !ok && !o.is_empty() {
                    c.fail(format!("touches:{}.{}", p.kind, p.field), format!("setting {} of {} changed {:?}", p.field, p.kind, o));
                }
                if ok {
                    put(&mut d, hs, h);
                    let e = refs.get_mut(&(h, pi)).unwrap();
                    if !p.list {
                        e.clear();
                    }
                    e.push(t);
                }
            }
        }
    }
    check_refs(c, &d, &refs, "set", None);
    for f in [Fmt::Ascii, Fmt::Binary] {
        match save(&d, f).and_then(|b| load(&b)) {
            Ok(l) => check_refs(c, &l, &refs, "reloaded", Some(vi)),
            Err(e) => c.inconclusive.push(e),
        }
    }
    // a target leaves: nothing is found
    let ts: Vec<u64> = refs.values().flatten().copied().collect();
    if !ts.is_empty() {
        let t = *r.pick(&ts);
        if let Some((ci, _)) = index(&d).get(&t) {
            let i = (COLLS[*ci].list)(&d).iter().position(|x| handle_of(*ci, x) == t).unwrap();
            (COLLS[*ci].remove)(&mut d, i);
            refs.retain(|k, _| k.0 != t);
            check_refs(c, &d, &refs, "target removed", None);
        }
    }
    // references to items of any kind, as a file may hold them
    let hs: Vec<u64> = index(&d).keys().copied().collect();
    let keys: Vec<(u64, usize)> = refs.keys().copied().collect();
    for (h, pi) in keys {
        let p = &PTRS[pi];
        let t = *r.pick(&hs);
        let mut j = json_of(&host(&d, p, h).unwrap());
        let f = format!("__{}_handle", p.field);
        let k = kind_of(&j);
        let slot = if p.kind == "*" { &mut j["common"] } else { &mut j["specific"][&k] };
        slot[&f] = if p.list { json!([t, r.below(100000)+0x100000, t]) } else { json!(t) };
        put(&mut d, if p.class == "entity" { Host::E(to_entity(&j)) } else { Host::O(to_object(&j)) }, h);
        refs.insert((h, pi), if p.list { vec![t, t] } else { vec![t] });
    }
    check_refs(c, &d, &refs, "any target", None);
}
// ---------------------------------------------------------------- owners of table entries and blocks
fn owner_case(c: &mut Case) {
    let mut r = c.rng.clone();
    let v = VERSIONS[R13 + r.below(VERSIONS.len() - R13)];
    let vi = vidx(v);
    let mut d = populated(&mut r, v);
    let mut blocks: Vec<(u64, u64)> = vec![];
    macro_rules! hosts {
        ($($it:ident $it_mut:ident $name:literal),+) => {$(
            {
                let ix = index(&d);
                let ts: Vec<u64> = ix.keys().copied().collect();
                let t = *r.pick(&ts);
                let n = d.$it().count();
                if n > 0 {
                    let i = r.below(n);
                    let mut hst = d.$it().nth(i).unwrap().clone();
                    let mut e = d.clone();
                    let before = d.header.next_available_handle;
                    let was = jv(&hst);
                    with_mut(&mut e, t, |it| hst.set_owner(it, &mut d));
                    let mut o = vec![];
                    diff("", &was, &jv(&hst), true, &mut o);
                    if o.iter().any(|x| x != "/__owner_handle") || d.header.next_available_handle != before {
                        c.fail(format!("owner:touches:{}", $name), format!("setting the owner changed {:?}", o));
                    }
                    match hst.owner(&d).map(item_json) {
                        Some(x) if x == ix[&t] => (),
                        _ => c.fail(format!("owner:{}", $name), format!("the owner of a {} is not the item that was set", $name)),
                    }
                    // an item without a handle gets one of its own
                    let used: BTreeSet<u64> = all_handles(&jv(&d)).into_iter().map(|x| x.1).collect();
                    let mut l = Block::default();
                    let mut it = DrawingItemMut::Block(&mut l);
                    let mut h2 = hst.clone();
                    let mut d2 = d.clone();
                    h2.set_owner(&mut it, &mut d2);
                    let h = it.handle().0;
                    if h == 0 || used.contains(&h) || jv(&h2)["__owner_handle"] != json!(h) || d2.header.next_available_handle.0 == h {
                        c.fail(format!("owner:new:{}", $name), format!("an owner without a handle got {:X}", h));
                    }
                    if $name == "Block" {
                        blocks.push((jv(&hst)["handle"].as_u64().unwrap(), t));
                    }
                    *d.$it_mut().nth(i).unwrap() = hst;
                    c.eval(format!("{}{}{}", $name, t, i));
                }
            }
        )+};
    }
    hosts!(app_ids app_ids_mut "AppId", block_records block_records_mut "BlockRecord", dim_styles dim_styles_mut "DimStyle", layers layers_mut "Layer", line_types line_types_mut "LineType", styles styles_mut "Style", ucss ucss_mut "Ucs", views views_mut "View", view_ports view_ports_mut "ViewPort", blocks blocks_mut "Block");
    let keep = tab()["block"].leaves.iter().find(|l| l.leaf.ptr == "/__owner_handle").map(|l| stored(l.st[vi])).unwrap_or(false);
    if keep {
        if let Ok(l) = save(&d, lab::any_fmt(&mut r)).and_then(|b| load(&b)) {
            let ix = index(&l);
            for (h, t) in blocks {
                if let (Some(b), Some(w)) = (l.blocks().find(|b| b.handle.0 == h), ix.get(&t)) {
                    c.count("followed block owner after loading", 1);
                    match b.owner(&l).map(item_json) {
                        Some(x) if x == *w => (),
                        _ => c.fail("owner:reloaded:Block", "the owner of a block is another item after loading"),
                    }
                }
            }
        }
    }
}
pub fn c11(t: bool) -> Check {
    let m = if t { 15 } else { 1 };
    Check {
        id: "C11",
        level: "exploration",
        rule: "one evaluation = one lookup by handle or one reference followed; distinct by kind, handle and moment",
        families: vec![family("lookup", 1500 * m, lookup_case), family("renumbered", 1500 * m, far_case), family("references", 2000 * m, refs_case), family("owners", 600 * m, owner_case), family("large lookup", 40 * m, |c| crate::lab::large(|| lookup_case(c))), family("large references", 60 * m, |c| crate::lab::large(|| refs_case(c)))],
        cpu_limit: 60,
        assumptions: vec!["items inside blocks and children of entities are not looked up".into(), "after loading, references are followed in the versions whose files hold them (ref/fields.tsv)".into()],
    }
}
