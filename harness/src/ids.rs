//! Generated by tools/gen_ids.py from spec/Names.tla.
use svgdom::{AttributeId, ElementId};

pub const ELEMENTS: &[(&str, ElementId)] = &[
    ("a", ElementId::A),
    ("altGlyph", ElementId::AltGlyph),
    ("altGlyphDef", ElementId::AltGlyphDef),
    ("altGlyphItem", ElementId::AltGlyphItem),
    ("animate", ElementId::Animate),
    ("animateColor", ElementId::AnimateColor),
    ("animateMotion", ElementId::AnimateMotion),
    ("animateTransform", ElementId::AnimateTransform),
    ("circle", ElementId::Circle),
    ("clipPath", ElementId::ClipPath),
    ("color-profile", ElementId::ColorProfile),
    ("cursor", ElementId::Cursor),
    ("defs", ElementId::Defs),
    ("desc", ElementId::Desc),
    ("ellipse", ElementId::Ellipse),
    ("feBlend", ElementId::FeBlend),
    ("feColorMatrix", ElementId::FeColorMatrix),
    ("feComponentTransfer", ElementId::FeComponentTransfer),
    ("feComposite", ElementId::FeComposite),
    ("feConvolveMatrix", ElementId::FeConvolveMatrix),
    ("feDiffuseLighting", ElementId::FeDiffuseLighting),
    ("feDisplacementMap", ElementId::FeDisplacementMap),
    ("feDistantLight", ElementId::FeDistantLight),
    ("feFlood", ElementId::FeFlood),
    ("feFuncA", ElementId::FeFuncA),
    ("feFuncB", ElementId::FeFuncB),
    ("feFuncG", ElementId::FeFuncG),
    ("feFuncR", ElementId::FeFuncR),
    ("feGaussianBlur", ElementId::FeGaussianBlur),
    ("feImage", ElementId::FeImage),
    ("feMerge", ElementId::FeMerge),
    ("feMergeNode", ElementId::FeMergeNode),
    ("feMorphology", ElementId::FeMorphology),
    ("feOffset", ElementId::FeOffset),
    ("fePointLight", ElementId::FePointLight),
    ("feSpecularLighting", ElementId::FeSpecularLighting),
    ("feSpotLight", ElementId::FeSpotLight),
    ("feTile", ElementId::FeTile),
    ("feTurbulence", ElementId::FeTurbulence),
    ("filter", ElementId::Filter),
    ("font", ElementId::Font),
    ("font-face", ElementId::FontFace),
    ("font-face-format", ElementId::FontFaceFormat),
    ("font-face-name", ElementId::FontFaceName),
    ("font-face-src", ElementId::FontFaceSrc),
    ("font-face-uri", ElementId::FontFaceUri),
    ("foreignObject", ElementId::ForeignObject),
    ("g", ElementId::G),
    ("glyph", ElementId::Glyph),
    ("glyphRef", ElementId::GlyphRef),
    ("hkern", ElementId::Hkern),
    ("image", ElementId::Image),
    ("line", ElementId::Line),
    ("linearGradient", ElementId::LinearGradient),
    ("marker", ElementId::Marker),
    ("mask", ElementId::Mask),
    ("metadata", ElementId::Metadata),
    ("missing-glyph", ElementId::MissingGlyph),
    ("mpath", ElementId::Mpath),
    ("path", ElementId::Path),
    ("pattern", ElementId::Pattern),
    ("polygon", ElementId::Polygon),
    ("polyline", ElementId::Polyline),
    ("radialGradient", ElementId::RadialGradient),
    ("rect", ElementId::Rect),
    ("script", ElementId::Script),
    ("set", ElementId::Set),
    ("stop", ElementId::Stop),
    ("style", ElementId::Style),
    ("svg", ElementId::Svg),
    ("switch", ElementId::Switch),
    ("symbol", ElementId::Symbol),
    ("text", ElementId::Text),
    ("textPath", ElementId::TextPath),
    ("title", ElementId::Title),
    ("tref", ElementId::Tref),
    ("tspan", ElementId::Tspan),
    ("use", ElementId::Use),
    ("view", ElementId::View),
    ("vkern", ElementId::Vkern),
];
pub const ATTRIBUTES: &[(&str, AttributeId)] = &[
    ("accent-height", AttributeId::AccentHeight),
    ("accumulate", AttributeId::Accumulate),
    ("actuate", AttributeId::Actuate),
    ("additive", AttributeId::Additive),
    ("alignment-baseline", AttributeId::AlignmentBaseline),
    ("alphabetic", AttributeId::Alphabetic),
    ("amplitude", AttributeId::Amplitude),
    ("arabic-form", AttributeId::ArabicForm),
    ("arcrole", AttributeId::Arcrole),
    ("ascent", AttributeId::Ascent),
    ("attributeName", AttributeId::AttributeName),
    ("attributeType", AttributeId::AttributeType),
    ("azimuth", AttributeId::Azimuth),
    ("base", AttributeId::Base),
    ("baseFrequency", AttributeId::BaseFrequency),
    ("baseline-shift", AttributeId::BaselineShift),
    ("baseProfile", AttributeId::BaseProfile),
    ("bbox", AttributeId::Bbox),
    ("begin", AttributeId::Begin),
    ("bias", AttributeId::Bias),
    ("by", AttributeId::By),
    ("calcMode", AttributeId::CalcMode),
    ("cap-height", AttributeId::CapHeight),
    ("class", AttributeId::Class),
    ("clip", AttributeId::Clip),
    ("clip-path", AttributeId::ClipPath),
    ("clip-rule", AttributeId::ClipRule),
    ("clipPathUnits", AttributeId::ClipPathUnits),
    ("color", AttributeId::Color),
    ("color-interpolation", AttributeId::ColorInterpolation),
    ("color-interpolation-filters", AttributeId::ColorInterpolationFilters),
    ("color-profile", AttributeId::ColorProfile),
    ("color-rendering", AttributeId::ColorRendering),
    ("contentScriptType", AttributeId::ContentScriptType),
    ("contentStyleType", AttributeId::ContentStyleType),
    ("cursor", AttributeId::Cursor),
    ("cx", AttributeId::Cx),
    ("cy", AttributeId::Cy),
    ("d", AttributeId::D),
    ("descent", AttributeId::Descent),
    ("diffuseConstant", AttributeId::DiffuseConstant),
    ("direction", AttributeId::Direction),
    ("display", AttributeId::Display),
    ("divisor", AttributeId::Divisor),
    ("dominant-baseline", AttributeId::DominantBaseline),
    ("dur", AttributeId::Dur),
    ("dx", AttributeId::Dx),
    ("dy", AttributeId::Dy),
    ("edgeMode", AttributeId::EdgeMode),
    ("elevation", AttributeId::Elevation),
    ("enable-background", AttributeId::EnableBackground),
    ("encoding", AttributeId::Encoding),
    ("end", AttributeId::End),
    ("exponent", AttributeId::Exponent),
    ("externalResourcesRequired", AttributeId::ExternalResourcesRequired),
    ("fill", AttributeId::Fill),
    ("fill-opacity", AttributeId::FillOpacity),
    ("fill-rule", AttributeId::FillRule),
    ("filter", AttributeId::Filter),
    ("filterRes", AttributeId::FilterRes),
    ("filterUnits", AttributeId::FilterUnits),
    ("flood-color", AttributeId::FloodColor),
    ("flood-opacity", AttributeId::FloodOpacity),
    ("font", AttributeId::Font),
    ("font-family", AttributeId::FontFamily),
    ("font-size", AttributeId::FontSize),
    ("font-size-adjust", AttributeId::FontSizeAdjust),
    ("font-stretch", AttributeId::FontStretch),
    ("font-style", AttributeId::FontStyle),
    ("font-variant", AttributeId::FontVariant),
    ("font-weight", AttributeId::FontWeight),
    ("format", AttributeId::Format),
    ("from", AttributeId::From),
    ("fx", AttributeId::Fx),
    ("fy", AttributeId::Fy),
    ("g1", AttributeId::G1),
    ("g2", AttributeId::G2),
    ("glyph-name", AttributeId::GlyphName),
    ("glyph-orientation-horizontal", AttributeId::GlyphOrientationHorizontal),
    ("glyph-orientation-vertical", AttributeId::GlyphOrientationVertical),
    ("glyphRef", AttributeId::GlyphRef),
    ("gradientTransform", AttributeId::GradientTransform),
    ("gradientUnits", AttributeId::GradientUnits),
    ("hanging", AttributeId::Hanging),
    ("height", AttributeId::Height),
    ("horiz-adv-x", AttributeId::HorizAdvX),
    ("horiz-origin-x", AttributeId::HorizOriginX),
    ("horiz-origin-y", AttributeId::HorizOriginY),
    ("href", AttributeId::Href),
    ("id", AttributeId::Id),
    ("ideographic", AttributeId::Ideographic),
    ("image-rendering", AttributeId::ImageRendering),
    ("in", AttributeId::In),
    ("in2", AttributeId::In2),
    ("intercept", AttributeId::Intercept),
    ("k", AttributeId::K),
    ("k1", AttributeId::K1),
    ("k2", AttributeId::K2),
    ("k3", AttributeId::K3),
    ("k4", AttributeId::K4),
    ("kernelMatrix", AttributeId::KernelMatrix),
    ("kernelUnitLength", AttributeId::KernelUnitLength),
    ("kerning", AttributeId::Kerning),
    ("keyPoints", AttributeId::KeyPoints),
    ("keySplines", AttributeId::KeySplines),
    ("keyTimes", AttributeId::KeyTimes),
    ("lang", AttributeId::Lang),
    ("lengthAdjust", AttributeId::LengthAdjust),
    ("letter-spacing", AttributeId::LetterSpacing),
    ("lighting-color", AttributeId::LightingColor),
    ("limitingConeAngle", AttributeId::LimitingConeAngle),
    ("line-height", AttributeId::LineHeight),
    ("local", AttributeId::Local),
    ("marker", AttributeId::Marker),
    ("marker-end", AttributeId::MarkerEnd),
    ("marker-mid", AttributeId::MarkerMid),
    ("marker-start", AttributeId::MarkerStart),
    ("markerHeight", AttributeId::MarkerHeight),
    ("markerUnits", AttributeId::MarkerUnits),
    ("markerWidth", AttributeId::MarkerWidth),
    ("mask", AttributeId::Mask),
    ("maskContentUnits", AttributeId::MaskContentUnits),
    ("maskUnits", AttributeId::MaskUnits),
    ("mathematical", AttributeId::Mathematical),
    ("max", AttributeId::Max),
    ("media", AttributeId::Media),
    ("method", AttributeId::Method),
    ("min", AttributeId::Min),
    ("mode", AttributeId::Mode),
    ("name", AttributeId::Name),
    ("numOctaves", AttributeId::NumOctaves),
    ("offset", AttributeId::Offset),
    ("onabort", AttributeId::Onabort),
    ("onactivate", AttributeId::Onactivate),
    ("onbegin", AttributeId::Onbegin),
    ("onclick", AttributeId::Onclick),
    ("onend", AttributeId::Onend),
    ("onerror", AttributeId::Onerror),
    ("onfocusin", AttributeId::Onfocusin),
    ("onfocusout", AttributeId::Onfocusout),
    ("onload", AttributeId::Onload),
    ("onmousedown", AttributeId::Onmousedown),
    ("onmousemove", AttributeId::Onmousemove),
    ("onmouseout", AttributeId::Onmouseout),
    ("onmouseover", AttributeId::Onmouseover),
    ("onmouseup", AttributeId::Onmouseup),
    ("onrepeat", AttributeId::Onrepeat),
    ("onresize", AttributeId::Onresize),
    ("onscroll", AttributeId::Onscroll),
    ("onunload", AttributeId::Onunload),
    ("onzoom", AttributeId::Onzoom),
    ("opacity", AttributeId::Opacity),
    ("operator", AttributeId::Operator),
    ("order", AttributeId::Order),
    ("orient", AttributeId::Orient),
    ("orientation", AttributeId::Orientation),
    ("origin", AttributeId::Origin),
    ("overflow", AttributeId::Overflow),
    ("overline-position", AttributeId::OverlinePosition),
    ("overline-thickness", AttributeId::OverlineThickness),
    ("panose-1", AttributeId::Panose1),
    ("path", AttributeId::Path),
    ("pathLength", AttributeId::PathLength),
    ("patternContentUnits", AttributeId::PatternContentUnits),
    ("patternTransform", AttributeId::PatternTransform),
    ("patternUnits", AttributeId::PatternUnits),
    ("pointer-events", AttributeId::PointerEvents),
    ("points", AttributeId::Points),
    ("pointsAtX", AttributeId::PointsAtX),
    ("pointsAtY", AttributeId::PointsAtY),
    ("pointsAtZ", AttributeId::PointsAtZ),
    ("preserveAlpha", AttributeId::PreserveAlpha),
    ("preserveAspectRatio", AttributeId::PreserveAspectRatio),
    ("primitiveUnits", AttributeId::PrimitiveUnits),
    ("r", AttributeId::R),
    ("radius", AttributeId::Radius),
    ("refX", AttributeId::RefX),
    ("refY", AttributeId::RefY),
    ("rendering-intent", AttributeId::RenderingIntent),
    ("repeatCount", AttributeId::RepeatCount),
    ("repeatDur", AttributeId::RepeatDur),
    ("requiredExtensions", AttributeId::RequiredExtensions),
    ("requiredFeatures", AttributeId::RequiredFeatures),
    ("restart", AttributeId::Restart),
    ("result", AttributeId::Result),
    ("role", AttributeId::Role),
    ("rotate", AttributeId::Rotate),
    ("rx", AttributeId::Rx),
    ("ry", AttributeId::Ry),
    ("scale", AttributeId::Scale),
    ("seed", AttributeId::Seed),
    ("shape-rendering", AttributeId::ShapeRendering),
    ("show", AttributeId::Show),
    ("slope", AttributeId::Slope),
    ("space", AttributeId::Space),
    ("spacing", AttributeId::Spacing),
    ("specularConstant", AttributeId::SpecularConstant),
    ("specularExponent", AttributeId::SpecularExponent),
    ("spreadMethod", AttributeId::SpreadMethod),
    ("standalone", AttributeId::Standalone),
    ("startOffset", AttributeId::StartOffset),
    ("stdDeviation", AttributeId::StdDeviation),
    ("stemh", AttributeId::Stemh),
    ("stemv", AttributeId::Stemv),
    ("stitchTiles", AttributeId::StitchTiles),
    ("stop-color", AttributeId::StopColor),
    ("stop-opacity", AttributeId::StopOpacity),
    ("strikethrough-position", AttributeId::StrikethroughPosition),
    ("strikethrough-thickness", AttributeId::StrikethroughThickness),
    ("string", AttributeId::String),
    ("stroke", AttributeId::Stroke),
    ("stroke-dasharray", AttributeId::StrokeDasharray),
    ("stroke-dashoffset", AttributeId::StrokeDashoffset),
    ("stroke-linecap", AttributeId::StrokeLinecap),
    ("stroke-linejoin", AttributeId::StrokeLinejoin),
    ("stroke-miterlimit", AttributeId::StrokeMiterlimit),
    ("stroke-opacity", AttributeId::StrokeOpacity),
    ("stroke-width", AttributeId::StrokeWidth),
    ("style", AttributeId::Style),
    ("surfaceScale", AttributeId::SurfaceScale),
    ("systemLanguage", AttributeId::SystemLanguage),
    ("tableValues", AttributeId::TableValues),
    ("target", AttributeId::Target),
    ("targetX", AttributeId::TargetX),
    ("targetY", AttributeId::TargetY),
    ("text-anchor", AttributeId::TextAnchor),
    ("text-decoration", AttributeId::TextDecoration),
    ("text-rendering", AttributeId::TextRendering),
    ("textLength", AttributeId::TextLength),
    ("title", AttributeId::Title),
    ("to", AttributeId::To),
    ("transform", AttributeId::Transform),
    ("type", AttributeId::Type),
    ("u1", AttributeId::U1),
    ("u2", AttributeId::U2),
    ("underline-position", AttributeId::UnderlinePosition),
    ("underline-thickness", AttributeId::UnderlineThickness),
    ("unicode", AttributeId::Unicode),
    ("unicode-bidi", AttributeId::UnicodeBidi),
    ("unicode-range", AttributeId::UnicodeRange),
    ("units-per-em", AttributeId::UnitsPerEm),
    ("v-alphabetic", AttributeId::VAlphabetic),
    ("v-hanging", AttributeId::VHanging),
    ("v-ideographic", AttributeId::VIdeographic),
    ("v-mathematical", AttributeId::VMathematical),
    ("values", AttributeId::Values),
    ("version", AttributeId::Version),
    ("vert-adv-y", AttributeId::VertAdvY),
    ("vert-origin-x", AttributeId::VertOriginX),
    ("vert-origin-y", AttributeId::VertOriginY),
    ("viewBox", AttributeId::ViewBox),
    ("viewTarget", AttributeId::ViewTarget),
    ("visibility", AttributeId::Visibility),
    ("width", AttributeId::Width),
    ("widths", AttributeId::Widths),
    ("word-spacing", AttributeId::WordSpacing),
    ("writing-mode", AttributeId::WritingMode),
    ("x", AttributeId::X),
    ("x-height", AttributeId::XHeight),
    ("x1", AttributeId::X1),
    ("x2", AttributeId::X2),
    ("xChannelSelector", AttributeId::XChannelSelector),
    ("xlink", AttributeId::Xlink),
    ("xmlns", AttributeId::Xmlns),
    ("y", AttributeId::Y),
    ("y1", AttributeId::Y1),
    ("y2", AttributeId::Y2),
    ("yChannelSelector", AttributeId::YChannelSelector),
    ("z", AttributeId::Z),
    ("zoomAndPan", AttributeId::ZoomAndPan),
];
