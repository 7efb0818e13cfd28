//! Constructors for every public item type of the library, by name.
use dxf::entities::*;
use dxf::enums::AcadVersion;
use dxf::objects::*;

macro_rules! kinds {
    ($fn_name:ident, $list:ident, $en:ident, $($v:ident),+ $(,)?) => {
        pub const $list: &[&str] = &[$(stringify!($v)),+];
        pub fn $fn_name(name: &str) -> $en {
            match name { $(stringify!($v) => $en::$v(Default::default()),)+ _ => panic!("harness: unknown kind {}", name) }
        }
    };
}
kinds!(entity_default, ENTITIES, EntityType,
    Face3D, Solid3D, ProxyEntity, Arc, ArcAlignedText, AttributeDefinition, Attribute, Body, Circle,
    RotatedDimension, RadialDimension, DiameterDimension, AngularThreePointDimension, OrdinateDimension,
    Ellipse, Helix, Image, Insert, Leader, Light, Line, LwPolyline, MLine, MText, OleFrame, Ole2Frame,
    ModelPoint, Polyline, Ray, Region, RText, Section, Seqend, Shape, Solid, Spline, Text, Tolerance,
    Trace, DgnUnderlay, DwfUnderlay, PdfUnderlay, Vertex, Wipeout, XLine);
kinds!(object_default, OBJECTS, ObjectType,
    AcadProxyObject, DictionaryWithDefault, PlaceHolder, NavisWorksModelDefinition, DataTable, Dictionary,
    DictionaryVariable, DimensionAssoc, Field, GeoData, Group, IdBuffer, ImageDefinition,
    ImageDefinitionReactor, LayerFilter, LayerIndex, Layout, LightList, Material, MLeaderStyle, MLineStyle,
    ObjectPointer, PlotSettings, RapidRTRenderEnvironment, RapidRenderSettings, RasterVariables,
    MentalRayRenderSettings, RenderEnvironment, RenderGlobal, SectionManager, SectionSettings,
    SortentsTable, SpatialFilter, SpatialIndex, SunStudy, TableStyle, UnderlayDefinition, VbaProject,
    VisualStyle, WipeoutVariables, XRecordObject);

pub const TABLES: &[&str] = &[
    "AppId", "BlockRecord", "DimStyle", "Layer", "LineType", "Style", "Ucs", "View", "ViewPort",
];

pub const VERSIONS: &[AcadVersion] = &[
    AcadVersion::Version_1_0, AcadVersion::Version_1_2, AcadVersion::Version_1_40,
    AcadVersion::Version_2_05, AcadVersion::Version_2_10, AcadVersion::Version_2_21,
    AcadVersion::Version_2_22, AcadVersion::Version_2_5, AcadVersion::Version_2_6, AcadVersion::R9,
    AcadVersion::R10, AcadVersion::R11, AcadVersion::R12, AcadVersion::R13, AcadVersion::R14,
    AcadVersion::R2000, AcadVersion::R2004, AcadVersion::R2007, AcadVersion::R2010, AcadVersion::R2013,
    AcadVersion::R2018,
];
pub fn vname(v: AcadVersion) -> String {
    format!("{:?}", v)
}
