------------------------------- MODULE Types -------------------------------
(***************************************************************************)
(* The SVG 1.1 tables: the data type of every attribute, the classes of    *)
(* elements and attributes, and the default values.                        *)
(***************************************************************************)
EXTENDS Names, FiniteSets

------------------------------------------------------------------------------
(* Attribute classes (SVG 1.1, property index and chapter 1) *)

Presentation == {
    "alignment-baseline", "baseline-shift", "clip", "clip-path", "clip-rule", "color",
    "color-interpolation", "color-interpolation-filters", "color-profile", "color-rendering",
    "cursor", "direction", "display", "dominant-baseline", "enable-background", "fill",
    "fill-opacity", "fill-rule", "filter", "flood-color", "flood-opacity", "font", "font-family",
    "font-size", "font-size-adjust", "font-stretch", "font-style", "font-variant", "font-weight",
    "glyph-orientation-horizontal", "glyph-orientation-vertical", "image-rendering", "kerning",
    "letter-spacing", "lighting-color", "marker", "marker-end", "marker-mid", "marker-start", "mask",
    "opacity", "overflow", "pointer-events", "shape-rendering", "stop-color", "stop-opacity",
    "stroke", "stroke-dasharray", "stroke-dashoffset", "stroke-linecap", "stroke-linejoin",
    "stroke-miterlimit", "stroke-opacity", "stroke-width", "text-anchor", "text-decoration",
    "text-rendering", "unicode-bidi", "visibility", "word-spacing", "writing-mode"}

\* visibility: CSS 2 says that it is not inherited
NonInheritable == {
    "alignment-baseline", "baseline-shift", "clip", "clip-path", "display", "dominant-baseline",
    "enable-background", "filter", "flood-color", "flood-opacity", "lighting-color", "mask",
    "opacity", "overflow", "stop-color", "stop-opacity", "text-decoration", "unicode-bidi",
    "visibility"}

AttributeClass == [
    presentation |-> Presentation,
    inheritable  |-> Presentation \ NonInheritable,
    animation    |-> {"onbegin", "onend", "onload", "onrepeat"},
    graphical    |-> {"onactivate", "onclick", "onfocusin", "onfocusout", "onload", "onmousedown",
                      "onmousemove", "onmouseout", "onmouseover", "onmouseup"},
    document     |-> {"onabort", "onerror", "onresize", "onscroll", "onunload", "onzoom"},
    conditional  |-> {"requiredExtensions", "requiredFeatures", "systemLanguage"},
    core         |-> {"base", "lang", "space"},
    fill         |-> {"fill", "fill-opacity", "fill-rule"},
    stroke       |-> {"stroke", "stroke-dasharray", "stroke-dashoffset", "stroke-linecap",
                      "stroke-linejoin", "stroke-miterlimit", "stroke-opacity", "stroke-width"}]

------------------------------------------------------------------------------
(* Element classes *)

BasicShapes == {"rect", "circle", "ellipse", "line", "polyline", "polygon"}
TextChildren == {"altGlyph", "textPath", "tref", "tspan"}
Gradients == {"linearGradient", "radialGradient"}

ElementClass == [
    referenced |-> {"altGlyphDef", "clipPath", "cursor", "filter", "linearGradient", "marker", "mask",
                    "pattern", "radialGradient", "symbol"},
    basic      |-> BasicShapes,
    shape      |-> BasicShapes \cup {"path"},
    container  |-> {"a", "defs", "glyph", "g", "marker", "mask", "missing-glyph", "pattern", "svg",
                    "switch", "symbol"},
    text       |-> TextChildren \cup {"text"},
    textchild  |-> TextChildren,
    graphic    |-> BasicShapes \cup {"path", "image", "text", "use"},
    gradient   |-> Gradients,
    paint      |-> Gradients \cup {"pattern"},
    primitive  |-> {"feBlend", "feColorMatrix", "feComponentTransfer", "feComposite",
                    "feConvolveMatrix", "feDiffuseLighting", "feDisplacementMap", "feFlood",
                    "feGaussianBlur", "feImage", "feMerge", "feMorphology", "feOffset",
                    "feSpecularLighting", "feTile", "feTurbulence"}]

------------------------------------------------------------------------------
(* Default values: [k, t] *)

DV(k, t) == [k |-> k, t |-> t]
NoDefault == DV("", "")

DefaultOf(n) ==
    CASE n \in {"alignment-baseline", "clip", "color-profile", "color-rendering", "cursor",
                "dominant-baseline", "glyph-orientation-vertical", "image-rendering", "kerning",
                "shape-rendering", "text-rendering"}                    -> DV("string", "auto")
      [] n \in {"clip-path", "filter", "font-size-adjust", "marker", "marker-end", "marker-mid",
                "marker-start", "mask", "stroke", "stroke-dasharray", "text-decoration"}
                                                                        -> DV("none", "")
      [] n \in {"font-stretch", "font-style", "font-variant", "font-weight", "letter-spacing",
                "unicode-bidi", "word-spacing"}                         -> DV("string", "normal")
      [] n \in {"fill", "flood-color", "stop-color"}                    -> DV("color", "#000000")
      [] n = "lighting-color"                                           -> DV("color", "#ffffff")
      [] n \in {"fill-opacity", "flood-opacity", "opacity", "stop-opacity", "stroke-opacity"}
                                                                        -> DV("number", "1")
      [] n \in {"clip-rule", "fill-rule"}                               -> DV("string", "nonzero")
      [] n = "baseline-shift"              -> DV("string", "baseline")
      [] n = "color-interpolation"         -> DV("string", "sRGB")
      [] n = "color-interpolation-filters" -> DV("string", "linearRGB")
      [] n = "direction"                   -> DV("string", "ltr")
      [] n = "display"                     -> DV("string", "inline")
      [] n = "enable-background"           -> DV("string", "accumulate")
      [] n = "font-size"                   -> DV("string", "medium")
      [] n = "glyph-orientation-horizontal" -> DV("angle", "0deg")
      [] n = "stroke-dashoffset"           -> DV("length", "0")
      [] n = "stroke-linecap"              -> DV("string", "butt")
      [] n = "stroke-linejoin"             -> DV("string", "miter")
      [] n = "stroke-miterlimit"           -> DV("number", "4")
      [] n = "stroke-width"                -> DV("length", "1")
      [] n = "text-anchor"                 -> DV("string", "start")
      [] n = "visibility"                  -> DV("string", "visible")
      [] n = "writing-mode"                -> DV("string", "lr-tb")
      [] OTHER                             -> NoDefault

------------------------------------------------------------------------------
(* The data type of an attribute: what its values are read as.             *)
(* A type is a record                                                      *)
(*   kw   : keywords with a value of their own                             *)
(*   str  : keywords kept as strings                                       *)
(*   as   : how any other value is read                                    *)

TextPositioned == {"altGlyph", "text", "tref", "tspan"}
Animations == {"set", "animate", "animateColor", "animateMotion", "animateTransform"}

Ty(kw, str, as) == [kw |-> kw, str |-> str, as |-> as]
Bare(as) == Ty({}, {}, as)
Inh(as)  == Ty({"inherit"}, {}, as)
NoneInh(as) == Ty({"none", "inherit"}, {}, as)

TypeOf(tag, n) ==
    CASE n = "href" -> Bare("iri")
      [] n \in {"x", "y", "dx", "dy"} -> Bare(IF tag \in TextPositioned THEN "lengths" ELSE "length")
      [] n \in {"x1", "y1", "x2", "y2", "r", "rx", "ry", "cx", "cy", "fx", "fy", "refX", "refY",
                "width", "height", "markerWidth", "markerHeight", "startOffset"} -> Bare("length")
      [] n = "offset" -> Bare("offset")
      [] n \in {"stroke-dashoffset", "stroke-width"} -> Inh("length")
      [] n = "stroke-miterlimit" -> Inh("number")
      [] n \in {"opacity", "fill-opacity", "flood-opacity", "stroke-opacity", "stop-opacity"} -> Inh("ratio")
      [] n \in {"k1", "k2", "k3", "k4"} -> Bare("ratio")
      [] n = "stroke-dasharray" -> NoneInh("lengths")
      [] n = "fill" -> IF tag \in Animations THEN Bare("string") ELSE Bare("paint")
      [] n = "stroke" -> Bare("paint")
      [] n \in {"clip-path", "filter", "marker", "marker-end", "marker-mid", "marker-start", "mask"} -> NoneInh("func")
      [] n = "color" -> Inh("color")
      [] n \in {"lighting-color", "flood-color", "stop-color"} -> Ty({"inherit", "currentColor"}, {}, "color")
      [] n \in {"stdDeviation", "baseFrequency", "rotate"} -> Bare("numbers")
      [] n = "points" -> Bare("points")
      [] n = "d" -> Bare("path")
      [] n \in {"transform", "gradientTransform", "patternTransform"} -> Bare("transform")
      [] n = "font-size" -> Ty({"inherit"}, {}, "length or string")
      [] n = "font-size-adjust" -> NoneInh("number")
      [] n \in {"display", "pointer-events", "text-decoration"} -> NoneInh("string")
      [] n \in {"clip-rule", "color-interpolation", "color-interpolation-filters", "color-profile",
                "color-rendering", "direction", "dominant-baseline", "enable-background", "fill-rule",
                "font-family", "font-stretch", "font-style", "font-variant", "font-weight",
                "image-rendering", "kerning", "overflow", "shape-rendering", "stroke-linecap",
                "stroke-linejoin", "text-anchor", "text-rendering", "unicode-bidi", "visibility",
                "writing-mode"} -> Inh("string")
      [] n \in {"letter-spacing", "word-spacing"} -> Ty({"inherit"}, {"normal"}, "length")
      [] n = "baseline-shift" -> Ty({"inherit"}, {"baseline", "sub", "super"}, "length")
      [] n = "orient" -> Ty({}, {"auto"}, "angle")
      [] n = "glyph-orientation-horizontal" -> Inh("angle")
      [] n = "glyph-orientation-vertical" -> Ty({"inherit"}, {"auto"}, "angle")
      [] n = "viewBox" -> Bare("viewbox")
      [] n = "preserveAspectRatio" -> Bare("aspect")
      [] OTHER -> Bare("string")

Keyword(v) == CASE v = "none" -> "none" [] v = "inherit" -> "inherit" [] v = "currentColor" -> "current"

\* The reading of a value: r is
\*   "value" (kind k, text t)   "link" (to id iri, fallback fb)
\*   "bad": not a value of this type   "empty": nothing to store   "unset": the default, stored by storing nothing
R(r, k, t) == [r |-> r, k |-> k, t |-> t, iri |-> "", fb |-> ""]
Link(iri, fb) == [r |-> "link", k |-> "", t |-> "", iri |-> iri, fb |-> fb]
Plainly(k, t) == IF t = "!" THEN R("bad", "", "") ELSE R("value", k, t)
NonEmpty(k, t) == IF t = "" THEN R("empty", "", "") ELSE Plainly(k, t)

\* x: the readings of v as each basic data type
Typed(tag, n, v, x) ==
    LET ty == TypeOf(tag, n) IN
    IF v \in ty.kw THEN R("value", Keyword(v), "")
    ELSE IF v \in ty.str THEN R("value", "string", v)
    ELSE CASE ty.as = "string"    -> R("value", "string", v)
           [] ty.as = "iri"       -> IF x.iri = "!" THEN R("value", "string", v) ELSE Link(x.iri, "")
           [] ty.as = "func"      -> IF x.func = "!" THEN R("bad", "", "") ELSE Link(x.func, "")
           [] ty.as = "paint"     -> IF x.paint = "!" THEN R("bad", "", "")
                                     ELSE IF x.paint = "iri" THEN Link(x.pt, x.pf)
                                     ELSE R("value", x.paint, x.pt)
           [] ty.as = "length"    -> Plainly("length", x.length)
           [] ty.as = "offset"    -> IF x.unit \in {"none", "percent"} THEN Plainly("length", x.length) ELSE R("bad", "", "")
           [] ty.as = "lengths"   -> NonEmpty("lengths", x.lengths)
           [] ty.as = "number"    -> Plainly("number", x.number)
           [] ty.as = "ratio"     -> Plainly("number", CASE x.range = "high" -> "1" [] x.range = "low" -> "0" [] OTHER -> x.number)
           [] ty.as = "numbers"   -> NonEmpty("numbers", x.numbers)
           [] ty.as = "color"     -> Plainly("color", x.color)
           [] ty.as = "points"    -> Plainly("points", x.points)
           [] ty.as = "path"      -> NonEmpty("path", x.path)
           [] ty.as = "transform" -> IF x.identity = "yes" THEN R("unset", "", "") ELSE Plainly("transform", x.transform)
           [] ty.as = "angle"     -> Plainly("angle", x.angle)
           [] ty.as = "viewbox"   -> Plainly("viewbox", x.viewbox)
           [] ty.as = "aspect"    -> Plainly("aspect", x.aspect)
           [] ty.as = "length or string" -> IF x.length = "!" THEN R("value", "string", v) ELSE R("value", "length", x.length)
=============================================================================
