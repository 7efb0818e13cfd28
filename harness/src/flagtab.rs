//! The flag accessors: word and bit value of each as the DXF reference has them (see tools/mkflags.py).
use crate::c_flag::{ap, Flag};
use crate::schema::Item;
use dxf::entities::*;
use dxf::objects::*;
use dxf::{Block, Class, Header};

pub fn flags() -> Vec<Flag> {
    vec![
        Flag { item: Item::Entity("Face3D"), word: "edge_flags", name: "is_first_edge_invisible", mask: 1, apply: |v, b| ap(v, b, Face3D::is_first_edge_invisible, Face3D::set_is_first_edge_invisible) },
        Flag { item: Item::Entity("Face3D"), word: "edge_flags", name: "is_second_edge_invisible", mask: 2, apply: |v, b| ap(v, b, Face3D::is_second_edge_invisible, Face3D::set_is_second_edge_invisible) },
        Flag { item: Item::Entity("Face3D"), word: "edge_flags", name: "is_third_edge_invisible", mask: 4, apply: |v, b| ap(v, b, Face3D::is_third_edge_invisible, Face3D::set_is_third_edge_invisible) },
        Flag { item: Item::Entity("Face3D"), word: "edge_flags", name: "is_fourth_edge_invisible", mask: 8, apply: |v, b| ap(v, b, Face3D::is_fourth_edge_invisible, Face3D::set_is_fourth_edge_invisible) },
        Flag { item: Item::Entity("AttributeDefinition"), word: "text_generation_flags", name: "is_text_backwards", mask: 2, apply: |v, b| ap(v, b, AttributeDefinition::is_text_backwards, AttributeDefinition::set_is_text_backwards) },
        Flag { item: Item::Entity("AttributeDefinition"), word: "text_generation_flags", name: "is_text_upside_down", mask: 4, apply: |v, b| ap(v, b, AttributeDefinition::is_text_upside_down, AttributeDefinition::set_is_text_upside_down) },
        Flag { item: Item::Entity("AttributeDefinition"), word: "flags", name: "is_invisible", mask: 1, apply: |v, b| ap(v, b, AttributeDefinition::is_invisible, AttributeDefinition::set_is_invisible) },
        Flag { item: Item::Entity("AttributeDefinition"), word: "flags", name: "is_constant", mask: 2, apply: |v, b| ap(v, b, AttributeDefinition::is_constant, AttributeDefinition::set_is_constant) },
        Flag { item: Item::Entity("AttributeDefinition"), word: "flags", name: "is_input_verification_required", mask: 4, apply: |v, b| ap(v, b, AttributeDefinition::is_input_verification_required, AttributeDefinition::set_is_input_verification_required) },
        Flag { item: Item::Entity("AttributeDefinition"), word: "flags", name: "is_attribute_present", mask: 8, apply: |v, b| ap(v, b, AttributeDefinition::is_attribute_present, AttributeDefinition::set_is_attribute_present) },
        Flag { item: Item::Entity("Attribute"), word: "flags", name: "is_invisible", mask: 1, apply: |v, b| ap(v, b, Attribute::is_invisible, Attribute::set_is_invisible) },
        Flag { item: Item::Entity("Attribute"), word: "flags", name: "is_constant", mask: 2, apply: |v, b| ap(v, b, Attribute::is_constant, Attribute::set_is_constant) },
        Flag { item: Item::Entity("Attribute"), word: "flags", name: "is_input_verification_required", mask: 4, apply: |v, b| ap(v, b, Attribute::is_input_verification_required, Attribute::set_is_input_verification_required) },
        Flag { item: Item::Entity("Attribute"), word: "flags", name: "is_attribute_present", mask: 8, apply: |v, b| ap(v, b, Attribute::is_attribute_present, Attribute::set_is_attribute_present) },
        Flag { item: Item::Entity("Attribute"), word: "text_generation_flags", name: "is_text_backwards", mask: 2, apply: |v, b| ap(v, b, Attribute::is_text_backwards, Attribute::set_is_text_backwards) },
        Flag { item: Item::Entity("Attribute"), word: "text_generation_flags", name: "is_text_upside_down", mask: 4, apply: |v, b| ap(v, b, Attribute::is_text_upside_down, Attribute::set_is_text_upside_down) },
        Flag { item: Item::Entity("Image"), word: "display_options_flags", name: "show_image", mask: 1, apply: |v, b| ap(v, b, Image::show_image, Image::set_show_image) },
        Flag { item: Item::Entity("Image"), word: "display_options_flags", name: "show_image_when_not_alligned", mask: 2, apply: |v, b| ap(v, b, Image::show_image_when_not_alligned, Image::set_show_image_when_not_alligned) },
        Flag { item: Item::Entity("Image"), word: "display_options_flags", name: "use_clipping_boundary", mask: 4, apply: |v, b| ap(v, b, Image::use_clipping_boundary, Image::set_use_clipping_boundary) },
        Flag { item: Item::Entity("Image"), word: "display_options_flags", name: "use_transparency", mask: 8, apply: |v, b| ap(v, b, Image::use_transparency, Image::set_use_transparency) },
        Flag { item: Item::Entity("LwPolyline"), word: "flags", name: "is_closed", mask: 1, apply: |v, b| ap(v, b, LwPolyline::is_closed, LwPolyline::set_is_closed) },
        Flag { item: Item::Entity("LwPolyline"), word: "flags", name: "is_pline_gen", mask: 128, apply: |v, b| ap(v, b, LwPolyline::is_pline_gen, LwPolyline::set_is_pline_gen) },
        Flag { item: Item::Entity("MLine"), word: "flags", name: "has_at_least_one_vertex", mask: 1, apply: |v, b| ap(v, b, MLine::has_at_least_one_vertex, MLine::set_has_at_least_one_vertex) },
        Flag { item: Item::Entity("MLine"), word: "flags", name: "is_closed", mask: 2, apply: |v, b| ap(v, b, MLine::is_closed, MLine::set_is_closed) },
        Flag { item: Item::Entity("MLine"), word: "flags", name: "suppress_start_caps", mask: 4, apply: |v, b| ap(v, b, MLine::suppress_start_caps, MLine::set_suppress_start_caps) },
        Flag { item: Item::Entity("MLine"), word: "flags", name: "suppress_end_caps", mask: 8, apply: |v, b| ap(v, b, MLine::suppress_end_caps, MLine::set_suppress_end_caps) },
        Flag { item: Item::Entity("Polyline"), word: "flags", name: "is_closed", mask: 1, apply: |v, b| ap(v, b, Polyline::is_closed, Polyline::set_is_closed) },
        Flag { item: Item::Entity("Polyline"), word: "flags", name: "curve_fit_vertices_added", mask: 2, apply: |v, b| ap(v, b, Polyline::curve_fit_vertices_added, Polyline::set_curve_fit_vertices_added) },
        Flag { item: Item::Entity("Polyline"), word: "flags", name: "spline_fit_vertices_added", mask: 4, apply: |v, b| ap(v, b, Polyline::spline_fit_vertices_added, Polyline::set_spline_fit_vertices_added) },
        Flag { item: Item::Entity("Polyline"), word: "flags", name: "is_3d_polyline", mask: 8, apply: |v, b| ap(v, b, Polyline::is_3d_polyline, Polyline::set_is_3d_polyline) },
        Flag { item: Item::Entity("Polyline"), word: "flags", name: "is_3d_polygon_mesh", mask: 16, apply: |v, b| ap(v, b, Polyline::is_3d_polygon_mesh, Polyline::set_is_3d_polygon_mesh) },
        Flag { item: Item::Entity("Polyline"), word: "flags", name: "is_polygon_mesh_closed_in_n_direction", mask: 32, apply: |v, b| ap(v, b, Polyline::is_polygon_mesh_closed_in_n_direction, Polyline::set_is_polygon_mesh_closed_in_n_direction) },
        Flag { item: Item::Entity("Polyline"), word: "flags", name: "is_polyface_mesh", mask: 64, apply: |v, b| ap(v, b, Polyline::is_polyface_mesh, Polyline::set_is_polyface_mesh) },
        Flag { item: Item::Entity("Polyline"), word: "flags", name: "is_line_type_pattern_generated_continuously", mask: 128, apply: |v, b| ap(v, b, Polyline::is_line_type_pattern_generated_continuously, Polyline::set_is_line_type_pattern_generated_continuously) },
        Flag { item: Item::Entity("RText"), word: "type_flags", name: "is_expression", mask: 1, apply: |v, b| ap(v, b, RText::is_expression, RText::set_is_expression) },
        Flag { item: Item::Entity("RText"), word: "type_flags", name: "is_inline_mtext_sequences_enabled", mask: 2, apply: |v, b| ap(v, b, RText::is_inline_mtext_sequences_enabled, RText::set_is_inline_mtext_sequences_enabled) },
        Flag { item: Item::Entity("Spline"), word: "flags", name: "is_closed", mask: 1, apply: |v, b| ap(v, b, Spline::is_closed, Spline::set_is_closed) },
        Flag { item: Item::Entity("Spline"), word: "flags", name: "is_periodic", mask: 2, apply: |v, b| ap(v, b, Spline::is_periodic, Spline::set_is_periodic) },
        Flag { item: Item::Entity("Spline"), word: "flags", name: "is_rational", mask: 4, apply: |v, b| ap(v, b, Spline::is_rational, Spline::set_is_rational) },
        Flag { item: Item::Entity("Spline"), word: "flags", name: "is_planar", mask: 8, apply: |v, b| ap(v, b, Spline::is_planar, Spline::set_is_planar) },
        Flag { item: Item::Entity("Spline"), word: "flags", name: "is_linear", mask: 16, apply: |v, b| ap(v, b, Spline::is_linear, Spline::set_is_linear) },
        Flag { item: Item::Entity("Text"), word: "text_generation_flags", name: "is_text_backwards", mask: 2, apply: |v, b| ap(v, b, Text::is_text_backwards, Text::set_is_text_backwards) },
        Flag { item: Item::Entity("Text"), word: "text_generation_flags", name: "is_text_upside_down", mask: 4, apply: |v, b| ap(v, b, Text::is_text_upside_down, Text::set_is_text_upside_down) },
        Flag { item: Item::Entity("DgnUnderlay"), word: "flags", name: "is_clipping_on", mask: 1, apply: |v, b| ap(v, b, DgnUnderlay::is_clipping_on, DgnUnderlay::set_is_clipping_on) },
        Flag { item: Item::Entity("DgnUnderlay"), word: "flags", name: "is_underlay_on", mask: 2, apply: |v, b| ap(v, b, DgnUnderlay::is_underlay_on, DgnUnderlay::set_is_underlay_on) },
        Flag { item: Item::Entity("DgnUnderlay"), word: "flags", name: "is_monochrome", mask: 4, apply: |v, b| ap(v, b, DgnUnderlay::is_monochrome, DgnUnderlay::set_is_monochrome) },
        Flag { item: Item::Entity("DgnUnderlay"), word: "flags", name: "adjust_for_background", mask: 8, apply: |v, b| ap(v, b, DgnUnderlay::adjust_for_background, DgnUnderlay::set_adjust_for_background) },
        Flag { item: Item::Entity("DgnUnderlay"), word: "flags", name: "is_clip_inside_mode", mask: 16, apply: |v, b| ap(v, b, DgnUnderlay::is_clip_inside_mode, DgnUnderlay::set_is_clip_inside_mode) },
        Flag { item: Item::Entity("DwfUnderlay"), word: "flags", name: "is_clipping_on", mask: 1, apply: |v, b| ap(v, b, DwfUnderlay::is_clipping_on, DwfUnderlay::set_is_clipping_on) },
        Flag { item: Item::Entity("DwfUnderlay"), word: "flags", name: "is_underlay_on", mask: 2, apply: |v, b| ap(v, b, DwfUnderlay::is_underlay_on, DwfUnderlay::set_is_underlay_on) },
        Flag { item: Item::Entity("DwfUnderlay"), word: "flags", name: "is_monochrome", mask: 4, apply: |v, b| ap(v, b, DwfUnderlay::is_monochrome, DwfUnderlay::set_is_monochrome) },
        Flag { item: Item::Entity("DwfUnderlay"), word: "flags", name: "adjust_for_background", mask: 8, apply: |v, b| ap(v, b, DwfUnderlay::adjust_for_background, DwfUnderlay::set_adjust_for_background) },
        Flag { item: Item::Entity("DwfUnderlay"), word: "flags", name: "is_clip_inside_mode", mask: 16, apply: |v, b| ap(v, b, DwfUnderlay::is_clip_inside_mode, DwfUnderlay::set_is_clip_inside_mode) },
        Flag { item: Item::Entity("PdfUnderlay"), word: "flags", name: "is_clipping_on", mask: 1, apply: |v, b| ap(v, b, PdfUnderlay::is_clipping_on, PdfUnderlay::set_is_clipping_on) },
        Flag { item: Item::Entity("PdfUnderlay"), word: "flags", name: "is_underlay_on", mask: 2, apply: |v, b| ap(v, b, PdfUnderlay::is_underlay_on, PdfUnderlay::set_is_underlay_on) },
        Flag { item: Item::Entity("PdfUnderlay"), word: "flags", name: "is_monochrome", mask: 4, apply: |v, b| ap(v, b, PdfUnderlay::is_monochrome, PdfUnderlay::set_is_monochrome) },
        Flag { item: Item::Entity("PdfUnderlay"), word: "flags", name: "adjust_for_background", mask: 8, apply: |v, b| ap(v, b, PdfUnderlay::adjust_for_background, PdfUnderlay::set_adjust_for_background) },
        Flag { item: Item::Entity("PdfUnderlay"), word: "flags", name: "is_clip_inside_mode", mask: 16, apply: |v, b| ap(v, b, PdfUnderlay::is_clip_inside_mode, PdfUnderlay::set_is_clip_inside_mode) },
        Flag { item: Item::Entity("Vertex"), word: "flags", name: "is_extra_created_by_curve_fit", mask: 1, apply: |v, b| ap(v, b, Vertex::is_extra_created_by_curve_fit, Vertex::set_is_extra_created_by_curve_fit) },
        Flag { item: Item::Entity("Vertex"), word: "flags", name: "is_curve_fit_tangent_defined", mask: 2, apply: |v, b| ap(v, b, Vertex::is_curve_fit_tangent_defined, Vertex::set_is_curve_fit_tangent_defined) },
        Flag { item: Item::Entity("Vertex"), word: "flags", name: "is_spline_vertex_created_by_spline_fitting", mask: 8, apply: |v, b| ap(v, b, Vertex::is_spline_vertex_created_by_spline_fitting, Vertex::set_is_spline_vertex_created_by_spline_fitting) },
        Flag { item: Item::Entity("Vertex"), word: "flags", name: "is_spline_frame_control_point", mask: 16, apply: |v, b| ap(v, b, Vertex::is_spline_frame_control_point, Vertex::set_is_spline_frame_control_point) },
        Flag { item: Item::Entity("Vertex"), word: "flags", name: "is_3d_polyline_vertex", mask: 32, apply: |v, b| ap(v, b, Vertex::is_3d_polyline_vertex, Vertex::set_is_3d_polyline_vertex) },
        Flag { item: Item::Entity("Vertex"), word: "flags", name: "is_3d_polygon_mesh", mask: 64, apply: |v, b| ap(v, b, Vertex::is_3d_polygon_mesh, Vertex::set_is_3d_polygon_mesh) },
        Flag { item: Item::Entity("Vertex"), word: "flags", name: "is_polyface_mesh_vertex", mask: 128, apply: |v, b| ap(v, b, Vertex::is_polyface_mesh_vertex, Vertex::set_is_polyface_mesh_vertex) },
        Flag { item: Item::Entity("Wipeout"), word: "display_options_flags", name: "show_image", mask: 1, apply: |v, b| ap(v, b, Wipeout::show_image, Wipeout::set_show_image) },
        Flag { item: Item::Entity("Wipeout"), word: "display_options_flags", name: "show_image_when_not_alligned", mask: 2, apply: |v, b| ap(v, b, Wipeout::show_image_when_not_alligned, Wipeout::set_show_image_when_not_alligned) },
        Flag { item: Item::Entity("Wipeout"), word: "display_options_flags", name: "use_clipping_boundary", mask: 4, apply: |v, b| ap(v, b, Wipeout::use_clipping_boundary, Wipeout::set_use_clipping_boundary) },
        Flag { item: Item::Entity("Wipeout"), word: "display_options_flags", name: "use_transparency", mask: 8, apply: |v, b| ap(v, b, Wipeout::use_transparency, Wipeout::set_use_transparency) },
        Flag { item: Item::Object("DimensionAssoc"), word: "associativity_flags", name: "is_first_point_reference", mask: 1, apply: |v, b| ap(v, b, DimensionAssoc::is_first_point_reference, DimensionAssoc::set_is_first_point_reference) },
        Flag { item: Item::Object("DimensionAssoc"), word: "associativity_flags", name: "is_second_point_reference", mask: 2, apply: |v, b| ap(v, b, DimensionAssoc::is_second_point_reference, DimensionAssoc::set_is_second_point_reference) },
        Flag { item: Item::Object("DimensionAssoc"), word: "associativity_flags", name: "is_third_point_reference", mask: 4, apply: |v, b| ap(v, b, DimensionAssoc::is_third_point_reference, DimensionAssoc::set_is_third_point_reference) },
        Flag { item: Item::Object("DimensionAssoc"), word: "associativity_flags", name: "is_fourth_point_reference", mask: 8, apply: |v, b| ap(v, b, DimensionAssoc::is_fourth_point_reference, DimensionAssoc::set_is_fourth_point_reference) },
        Flag { item: Item::Object("Layout"), word: "layout_flags", name: "is_ps_lt_scale", mask: 1, apply: |v, b| ap(v, b, Layout::is_ps_lt_scale, Layout::set_is_ps_lt_scale) },
        Flag { item: Item::Object("Layout"), word: "layout_flags", name: "is_lim_check", mask: 2, apply: |v, b| ap(v, b, Layout::is_lim_check, Layout::set_is_lim_check) },
        Flag { item: Item::Object("MLineStyle"), word: "__flags", name: "fill_on", mask: 1, apply: |v, b| ap(v, b, MLineStyle::fill_on, MLineStyle::set_fill_on) },
        Flag { item: Item::Object("MLineStyle"), word: "__flags", name: "display_miters", mask: 2, apply: |v, b| ap(v, b, MLineStyle::display_miters, MLineStyle::set_display_miters) },
        Flag { item: Item::Object("MLineStyle"), word: "__flags", name: "start_square_end_cap", mask: 16, apply: |v, b| ap(v, b, MLineStyle::start_square_end_cap, MLineStyle::set_start_square_end_cap) },
        Flag { item: Item::Object("MLineStyle"), word: "__flags", name: "start_inner_arcs_cap", mask: 32, apply: |v, b| ap(v, b, MLineStyle::start_inner_arcs_cap, MLineStyle::set_start_inner_arcs_cap) },
        Flag { item: Item::Object("MLineStyle"), word: "__flags", name: "start_round_cap", mask: 64, apply: |v, b| ap(v, b, MLineStyle::start_round_cap, MLineStyle::set_start_round_cap) },
        Flag { item: Item::Object("MLineStyle"), word: "__flags", name: "end_square_cap", mask: 256, apply: |v, b| ap(v, b, MLineStyle::end_square_cap, MLineStyle::set_end_square_cap) },
        Flag { item: Item::Object("MLineStyle"), word: "__flags", name: "end_inner_arcs_cap", mask: 512, apply: |v, b| ap(v, b, MLineStyle::end_inner_arcs_cap, MLineStyle::set_end_inner_arcs_cap) },
        Flag { item: Item::Object("MLineStyle"), word: "__flags", name: "end_round_cap", mask: 1024, apply: |v, b| ap(v, b, MLineStyle::end_round_cap, MLineStyle::set_end_round_cap) },
        Flag { item: Item::Object("PlotSettings"), word: "plot_layout_flags", name: "plot_viewport_borders", mask: 1, apply: |v, b| ap(v, b, PlotSettings::plot_viewport_borders, PlotSettings::set_plot_viewport_borders) },
        Flag { item: Item::Object("PlotSettings"), word: "plot_layout_flags", name: "show_plot_styles", mask: 2, apply: |v, b| ap(v, b, PlotSettings::show_plot_styles, PlotSettings::set_show_plot_styles) },
        Flag { item: Item::Object("PlotSettings"), word: "plot_layout_flags", name: "plot_centered", mask: 4, apply: |v, b| ap(v, b, PlotSettings::plot_centered, PlotSettings::set_plot_centered) },
        Flag { item: Item::Object("PlotSettings"), word: "plot_layout_flags", name: "plot_hidden", mask: 8, apply: |v, b| ap(v, b, PlotSettings::plot_hidden, PlotSettings::set_plot_hidden) },
        Flag { item: Item::Object("PlotSettings"), word: "plot_layout_flags", name: "use_standard_scale", mask: 16, apply: |v, b| ap(v, b, PlotSettings::use_standard_scale, PlotSettings::set_use_standard_scale) },
        Flag { item: Item::Object("PlotSettings"), word: "plot_layout_flags", name: "plot_plot_styles", mask: 32, apply: |v, b| ap(v, b, PlotSettings::plot_plot_styles, PlotSettings::set_plot_plot_styles) },
        Flag { item: Item::Object("PlotSettings"), word: "plot_layout_flags", name: "scale_line_weights", mask: 64, apply: |v, b| ap(v, b, PlotSettings::scale_line_weights, PlotSettings::set_scale_line_weights) },
        Flag { item: Item::Object("PlotSettings"), word: "plot_layout_flags", name: "print_line_weights", mask: 128, apply: |v, b| ap(v, b, PlotSettings::print_line_weights, PlotSettings::set_print_line_weights) },
        Flag { item: Item::Object("PlotSettings"), word: "plot_layout_flags", name: "draw_viewports_first", mask: 512, apply: |v, b| ap(v, b, PlotSettings::draw_viewports_first, PlotSettings::set_draw_viewports_first) },
        Flag { item: Item::Object("PlotSettings"), word: "plot_layout_flags", name: "model_type", mask: 1024, apply: |v, b| ap(v, b, PlotSettings::model_type, PlotSettings::set_model_type) },
        Flag { item: Item::Object("PlotSettings"), word: "plot_layout_flags", name: "update_paper", mask: 2048, apply: |v, b| ap(v, b, PlotSettings::update_paper, PlotSettings::set_update_paper) },
        Flag { item: Item::Object("PlotSettings"), word: "plot_layout_flags", name: "zoom_to_paper_on_update", mask: 4096, apply: |v, b| ap(v, b, PlotSettings::zoom_to_paper_on_update, PlotSettings::set_zoom_to_paper_on_update) },
        Flag { item: Item::Object("PlotSettings"), word: "plot_layout_flags", name: "initializing", mask: 8192, apply: |v, b| ap(v, b, PlotSettings::initializing, PlotSettings::set_initializing) },
        Flag { item: Item::Object("PlotSettings"), word: "plot_layout_flags", name: "prev_plot_init", mask: 16384, apply: |v, b| ap(v, b, PlotSettings::prev_plot_init, PlotSettings::set_prev_plot_init) },
        Flag { item: Item::Header, word: "object_snap_flags", name: "end_point_snap", mask: 1, apply: |v, b| ap(v, b, Header::end_point_snap, Header::set_end_point_snap) },
        Flag { item: Item::Header, word: "object_snap_flags", name: "mid_point_snap", mask: 2, apply: |v, b| ap(v, b, Header::mid_point_snap, Header::set_mid_point_snap) },
        Flag { item: Item::Header, word: "object_snap_flags", name: "center_snap", mask: 4, apply: |v, b| ap(v, b, Header::center_snap, Header::set_center_snap) },
        Flag { item: Item::Header, word: "object_snap_flags", name: "node_snap", mask: 8, apply: |v, b| ap(v, b, Header::node_snap, Header::set_node_snap) },
        Flag { item: Item::Header, word: "object_snap_flags", name: "quadrant_snap", mask: 16, apply: |v, b| ap(v, b, Header::quadrant_snap, Header::set_quadrant_snap) },
        Flag { item: Item::Header, word: "object_snap_flags", name: "intersection_snap", mask: 32, apply: |v, b| ap(v, b, Header::intersection_snap, Header::set_intersection_snap) },
        Flag { item: Item::Header, word: "object_snap_flags", name: "insertion_snap", mask: 64, apply: |v, b| ap(v, b, Header::insertion_snap, Header::set_insertion_snap) },
        Flag { item: Item::Header, word: "object_snap_flags", name: "perpendicular_snap", mask: 128, apply: |v, b| ap(v, b, Header::perpendicular_snap, Header::set_perpendicular_snap) },
        Flag { item: Item::Header, word: "object_snap_flags", name: "tangent_snap", mask: 256, apply: |v, b| ap(v, b, Header::tangent_snap, Header::set_tangent_snap) },
        Flag { item: Item::Header, word: "object_snap_flags", name: "nearest_snap", mask: 512, apply: |v, b| ap(v, b, Header::nearest_snap, Header::set_nearest_snap) },
        Flag { item: Item::Header, word: "object_snap_flags", name: "apparent_intersection_snap", mask: 2048, apply: |v, b| ap(v, b, Header::apparent_intersection_snap, Header::set_apparent_intersection_snap) },
        Flag { item: Item::Header, word: "object_snap_flags", name: "extension_snap", mask: 4096, apply: |v, b| ap(v, b, Header::extension_snap, Header::set_extension_snap) },
        Flag { item: Item::Header, word: "object_snap_flags", name: "parallel_snap", mask: 8192, apply: |v, b| ap(v, b, Header::parallel_snap, Header::set_parallel_snap) },
        Flag { item: Item::Header, word: "object_sorting_methods_flags", name: "sort_objects_for_object_selection", mask: 1, apply: |v, b| ap(v, b, Header::sort_objects_for_object_selection, Header::set_sort_objects_for_object_selection) },
        Flag { item: Item::Header, word: "object_sorting_methods_flags", name: "sort_objects_for_object_snap", mask: 2, apply: |v, b| ap(v, b, Header::sort_objects_for_object_snap, Header::set_sort_objects_for_object_snap) },
        Flag { item: Item::Header, word: "object_sorting_methods_flags", name: "sort_objects_for_redraw", mask: 4, apply: |v, b| ap(v, b, Header::sort_objects_for_redraw, Header::set_sort_objects_for_redraw) },
        Flag { item: Item::Header, word: "object_sorting_methods_flags", name: "sort_objects_for_mslide", mask: 8, apply: |v, b| ap(v, b, Header::sort_objects_for_mslide, Header::set_sort_objects_for_mslide) },
        Flag { item: Item::Header, word: "object_sorting_methods_flags", name: "sort_objects_for_regen", mask: 16, apply: |v, b| ap(v, b, Header::sort_objects_for_regen, Header::set_sort_objects_for_regen) },
        Flag { item: Item::Header, word: "object_sorting_methods_flags", name: "sort_objects_for_plotting", mask: 32, apply: |v, b| ap(v, b, Header::sort_objects_for_plotting, Header::set_sort_objects_for_plotting) },
        Flag { item: Item::Header, word: "object_sorting_methods_flags", name: "sort_objects_for_post_script_output", mask: 64, apply: |v, b| ap(v, b, Header::sort_objects_for_post_script_output, Header::set_sort_objects_for_post_script_output) },
        Flag { item: Item::Header, word: "loft_flags", name: "no_twist", mask: 1, apply: |v, b| ap(v, b, Header::no_twist, Header::set_no_twist) },
        Flag { item: Item::Header, word: "loft_flags", name: "align_direction", mask: 2, apply: |v, b| ap(v, b, Header::align_direction, Header::set_align_direction) },
        Flag { item: Item::Header, word: "loft_flags", name: "simplify", mask: 4, apply: |v, b| ap(v, b, Header::simplify, Header::set_simplify) },
        Flag { item: Item::Header, word: "loft_flags", name: "close", mask: 8, apply: |v, b| ap(v, b, Header::close, Header::set_close) },
        Flag { item: Item::Block, word: "flags", name: "is_anonymous", mask: 1, apply: |v, b| ap(v, b, Block::is_anonymous, Block::set_is_anonymous) },
        Flag { item: Item::Block, word: "flags", name: "has_non_consistent_attribute_definitions", mask: 2, apply: |v, b| ap(v, b, Block::has_non_consistent_attribute_definitions, Block::set_has_non_consistent_attribute_definitions) },
        Flag { item: Item::Block, word: "flags", name: "is_xref", mask: 4, apply: |v, b| ap(v, b, Block::is_xref, Block::set_is_xref) },
        Flag { item: Item::Block, word: "flags", name: "is_xref_overlay", mask: 8, apply: |v, b| ap(v, b, Block::is_xref_overlay, Block::set_is_xref_overlay) },
        Flag { item: Item::Block, word: "flags", name: "is_externally_dependent", mask: 16, apply: |v, b| ap(v, b, Block::is_externally_dependent, Block::set_is_externally_dependent) },
        Flag { item: Item::Block, word: "flags", name: "is_referenced_external_reference", mask: 64, apply: |v, b| ap(v, b, Block::is_referenced_external_reference, Block::set_is_referenced_external_reference) },
        Flag { item: Item::Block, word: "flags", name: "is_resolved_external_reference", mask: 32, apply: |v, b| ap(v, b, Block::is_resolved_external_reference, Block::set_is_resolved_external_reference) },
        Flag { item: Item::Class, word: "proxy_capability_flags", name: "is_erase_allowed", mask: 1, apply: |v, b| ap(v, b, Class::is_erase_allowed, Class::set_is_erase_allowed) },
        Flag { item: Item::Class, word: "proxy_capability_flags", name: "is_transform_allowed", mask: 2, apply: |v, b| ap(v, b, Class::is_transform_allowed, Class::set_is_transform_allowed) },
        Flag { item: Item::Class, word: "proxy_capability_flags", name: "is_color_change_allowed", mask: 4, apply: |v, b| ap(v, b, Class::is_color_change_allowed, Class::set_is_color_change_allowed) },
        Flag { item: Item::Class, word: "proxy_capability_flags", name: "is_layer_change_allowed", mask: 8, apply: |v, b| ap(v, b, Class::is_layer_change_allowed, Class::set_is_layer_change_allowed) },
        Flag { item: Item::Class, word: "proxy_capability_flags", name: "is_line_type_change_allowed", mask: 16, apply: |v, b| ap(v, b, Class::is_line_type_change_allowed, Class::set_is_line_type_change_allowed) },
        Flag { item: Item::Class, word: "proxy_capability_flags", name: "is_line_type_scale_change_allowed", mask: 32, apply: |v, b| ap(v, b, Class::is_line_type_scale_change_allowed, Class::set_is_line_type_scale_change_allowed) },
        Flag { item: Item::Class, word: "proxy_capability_flags", name: "is_visibility_change_allowed", mask: 64, apply: |v, b| ap(v, b, Class::is_visibility_change_allowed, Class::set_is_visibility_change_allowed) },
        Flag { item: Item::Class, word: "proxy_capability_flags", name: "is_clone_allowed", mask: 128, apply: |v, b| ap(v, b, Class::is_clone_allowed, Class::set_is_clone_allowed) },
        Flag { item: Item::Class, word: "proxy_capability_flags", name: "is_lineweight_change_allowed", mask: 256, apply: |v, b| ap(v, b, Class::is_lineweight_change_allowed, Class::set_is_lineweight_change_allowed) },
        Flag { item: Item::Class, word: "proxy_capability_flags", name: "is_plot_style_name_change_allowed", mask: 512, apply: |v, b| ap(v, b, Class::is_plot_style_name_change_allowed, Class::set_is_plot_style_name_change_allowed) },
        Flag { item: Item::Class, word: "proxy_capability_flags", name: "is_R13_format_proxy", mask: 32768, apply: |v, b| ap(v, b, Class::is_R13_format_proxy, Class::set_is_R13_format_proxy) },
    ]
}
