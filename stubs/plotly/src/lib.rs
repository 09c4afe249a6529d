//! Stand-in for the plotly fork that cannot be fetched here: traces, layouts and plots that only
//! record what they are given (only the part of the API that upppp_rust uses).
use std::any::Any;

pub mod color {
    #[derive(Clone, Copy, Debug, PartialEq)]
    pub enum NamedColor {
        Black,
        Red,
        Blue,
        White,
    }
    pub trait Color: Clone {
        fn text(&self) -> String;
    }
    impl Color for NamedColor {
        fn text(&self) -> String {
            format!("{self:?}").to_lowercase()
        }
    }
    impl Color for String {
        fn text(&self) -> String {
            self.clone()
        }
    }
    impl Color for &str {
        fn text(&self) -> String {
            self.to_string()
        }
    }
}

pub mod common {
    use super::color::Color;
    #[derive(Clone, Debug, PartialEq)]
    pub struct ColorScaleElement(pub f64, pub String);
    #[derive(Clone, Debug, PartialEq)]
    pub enum ColorScale {
        Vector(Vec<ColorScaleElement>),
    }
    #[derive(Clone, Copy, Debug, PartialEq)]
    pub enum Fill {
        ToZeroY,
        ToZeroX,
        ToSelf,
        ToNext,
        None,
    }
    #[derive(Clone, Copy, Debug, PartialEq)]
    pub enum Mode {
        Lines,
        Markers,
        LinesMarkers,
        Text,
        None,
    }
    #[derive(Clone, Copy, Debug, PartialEq)]
    pub enum MarkerSymbol {
        Circle,
        Square,
        Cross,
        X,
    }
    #[derive(Clone, Debug, Default)]
    pub struct ColorBar;
    impl ColorBar {
        pub fn new() -> Self {
            ColorBar
        }
    }
    #[derive(Clone, Debug, Default)]
    pub struct Line {
        pub color: Option<String>,
        pub width: Option<f64>,
    }
    impl Line {
        pub fn new() -> Self {
            Line::default()
        }
        pub fn color<C: Color>(mut self, c: C) -> Self {
            self.color = Some(c.text());
            self
        }
        pub fn width(mut self, w: f64) -> Self {
            self.width = Some(w);
            self
        }
    }
    #[derive(Clone, Debug, Default)]
    pub struct Marker {
        pub symbol: Option<MarkerSymbol>,
        pub cmin: Option<f64>,
        pub cmax: Option<f64>,
        pub size: Option<usize>,
        pub show_scale: Option<bool>,
        pub color: Option<String>,
        pub color_scale: Option<ColorScale>,
        pub color_bar: Option<ColorBar>,
    }
    impl Marker {
        pub fn new() -> Self {
            Marker::default()
        }
        pub fn symbol(mut self, v: MarkerSymbol) -> Self {
            self.symbol = Some(v);
            self
        }
        pub fn cmin(mut self, v: f64) -> Self {
            self.cmin = Some(v);
            self
        }
        pub fn cmax(mut self, v: f64) -> Self {
            self.cmax = Some(v);
            self
        }
        pub fn size(mut self, v: usize) -> Self {
            self.size = Some(v);
            self
        }
        pub fn show_scale(mut self, v: bool) -> Self {
            self.show_scale = Some(v);
            self
        }
        pub fn color<C: Color>(mut self, v: C) -> Self {
            self.color = Some(v.text());
            self
        }
        pub fn color_scale(mut self, v: ColorScale) -> Self {
            self.color_scale = Some(v);
            self
        }
        pub fn color_bar(mut self, v: ColorBar) -> Self {
            self.color_bar = Some(v);
            self
        }
    }
}

use color::Color;
use common::{ColorScale, Fill, Line, Marker, Mode};

/// What is drawn: anything that can be put in a plot.
pub trait Trace {
    fn as_any(&self) -> &dyn Any;
    /// everything that was set, as text and numbers
    fn record(&self) -> Record;
}

/// A trace as it was set: its kind and settings as text, and all its numbers by name.
#[derive(Clone, Debug, Default)]
pub struct Record {
    pub text: String,
    pub numbers: Vec<(&'static str, Vec<f64>)>,
}
/// Values of the axes of a trace
pub trait Flat: Clone + 'static {
    fn flat(&self, to: &mut Vec<f64>);
}
impl Flat for f64 {
    fn flat(&self, to: &mut Vec<f64>) {
        to.push(*self)
    }
}
impl Flat for usize {
    fn flat(&self, to: &mut Vec<f64>) {
        to.push(*self as f64)
    }
}
impl Flat for Vec<f64> {
    fn flat(&self, to: &mut Vec<f64>) {
        to.push(self.len() as f64);
        to.extend(self)
    }
}
fn flat<T: Flat>(v: &[T]) -> Vec<f64> {
    let mut o = vec![];
    v.iter().for_each(|x| x.flat(&mut o));
    o
}
fn scale(c: &Option<ColorScale>) -> (String, Vec<f64>) {
    match c {
        Some(ColorScale::Vector(v)) => (v.iter().map(|e| e.1.clone()).collect::<Vec<_>>().join(" "), v.iter().map(|e| e.0).collect()),
        None => (String::new(), vec![]),
    }
}

macro_rules! own {
    ($t:ident < $($g:ident),* >) => {
        impl<$($g: Flat),*> Trace for $t<$($g),*> {
            fn as_any(&self) -> &dyn Any {
                self
            }
            fn record(&self) -> Record {
                self.recorded()
            }
        }
    };
}

#[derive(Clone, Debug)]
pub struct HeatMap<X, Y, Z> {
    pub x: Vec<X>,
    pub y: Vec<Y>,
    pub z: Vec<Z>,
    pub color_scale: Option<ColorScale>,
}
impl<X, Y, Z> HeatMap<X, Y, Z> {
    pub fn new(x: Vec<X>, y: Vec<Y>, z: Vec<Z>) -> Box<Self> {
        Box::new(HeatMap { x, y, z, color_scale: None })
    }
    pub fn color_scale(mut self: Box<Self>, v: ColorScale) -> Box<Self> {
        self.color_scale = Some(v);
        self
    }
}
impl<X: Flat, Y: Flat, Z: Flat> HeatMap<X, Y, Z> {
    fn recorded(&self) -> Record {
        let (c, n) = scale(&self.color_scale);
        Record {
            text: format!("heatmap {c}"),
            numbers: vec![("x", flat(&self.x)), ("y", flat(&self.y)), ("z", flat(&self.z)), ("scale", n)],
        }
    }
}
own!(HeatMap<X, Y, Z>);

#[derive(Clone, Debug)]
pub struct Contour<Z, X = f64, Y = f64> {
    pub x: Vec<X>,
    pub y: Vec<Y>,
    pub z: Vec<Z>,
    pub color_scale: Option<ColorScale>,
    pub contours: Option<contour::Contours>,
    pub auto_contour: Option<bool>,
}
impl<Z, X, Y> Contour<Z, X, Y> {
    pub fn new(x: Vec<X>, y: Vec<Y>, z: Vec<Z>) -> Box<Self> {
        Box::new(Contour { x, y, z, color_scale: None, contours: None, auto_contour: None })
    }
    pub fn contours(mut self: Box<Self>, v: contour::Contours) -> Box<Self> {
        self.contours = Some(v);
        self
    }
    pub fn auto_contour(mut self: Box<Self>, v: bool) -> Box<Self> {
        self.auto_contour = Some(v);
        self
    }
    pub fn color_scale(mut self: Box<Self>, v: ColorScale) -> Box<Self> {
        self.color_scale = Some(v);
        self
    }
}
impl<Z: Flat, X: Flat, Y: Flat> Contour<Z, X, Y> {
    fn recorded(&self) -> Record {
        let (c, n) = scale(&self.color_scale);
        let lines = self.contours.map(|k| vec![k.start, k.end, k.size]).unwrap_or_default();
        Record {
            text: format!("contour {:?} {c}", self.auto_contour),
            numbers: vec![("x", flat(&self.x)), ("y", flat(&self.y)), ("z", flat(&self.z)), ("scale", n), ("contours", lines)],
        }
    }
}
own!(Contour<Z, X, Y>);

#[derive(Clone, Debug)]
pub struct Scatter<X, Y> {
    pub x: Vec<X>,
    pub y: Vec<Y>,
    pub mode: Option<Mode>,
    pub show_legend: Option<bool>,
    pub fill: Option<Fill>,
    pub fill_color: Option<String>,
    pub line: Option<Line>,
    pub marker: Option<Marker>,
    pub name: Option<String>,
}
impl<X, Y> Scatter<X, Y> {
    pub fn new(x: Vec<X>, y: Vec<Y>) -> Box<Self> {
        Box::new(Scatter {
            x,
            y,
            mode: None,
            show_legend: None,
            fill: None,
            fill_color: None,
            line: None,
            marker: None,
            name: None,
        })
    }
    pub fn mode(mut self: Box<Self>, v: Mode) -> Box<Self> {
        self.mode = Some(v);
        self
    }
    pub fn show_legend(mut self: Box<Self>, v: bool) -> Box<Self> {
        self.show_legend = Some(v);
        self
    }
    pub fn fill(mut self: Box<Self>, v: Fill) -> Box<Self> {
        self.fill = Some(v);
        self
    }
    pub fn fill_color<C: Color>(mut self: Box<Self>, v: C) -> Box<Self> {
        self.fill_color = Some(v.text());
        self
    }
    pub fn line(mut self: Box<Self>, v: Line) -> Box<Self> {
        self.line = Some(v);
        self
    }
    pub fn marker(mut self: Box<Self>, v: Marker) -> Box<Self> {
        self.marker = Some(v);
        self
    }
    pub fn name(mut self: Box<Self>, v: &str) -> Box<Self> {
        self.name = Some(v.to_string());
        self
    }
}
impl<X: Flat, Y: Flat> Scatter<X, Y> {
    fn recorded(&self) -> Record {
        let l = self.line.clone().unwrap_or_default();
        let m = self.marker.clone().unwrap_or_default();
        let (c, n) = scale(&m.color_scale);
        let one = |v: Option<f64>| v.map(|v| vec![v]).unwrap_or_default();
        Record {
            text: format!(
                "scatter {:?} {:?} {:?} {:?} {:?} | {:?} | {:?} {:?} {:?} {:?} {:?} {c}",
                self.mode, self.show_legend, self.fill, self.fill_color, self.name, l.color,
                m.symbol, m.size, m.show_scale, m.color, m.color_bar.is_some()
            ),
            numbers: vec![
                ("x", flat(&self.x)),
                ("y", flat(&self.y)),
                ("width", one(l.width)),
                ("cmin", one(m.cmin)),
                ("cmax", one(m.cmax)),
                ("scale", n),
            ],
        }
    }
}
own!(Scatter<X, Y>);

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Layout {
    pub title: String,
    pub template: Option<layout::Template>,
}
impl Layout {
    pub fn new() -> Self {
        Layout::default()
    }
    pub fn title(mut self, t: &str) -> Self {
        self.title = t.to_string();
        self
    }
    pub fn template(mut self, t: &layout::Template) -> Self {
        self.template = Some(t.clone());
        self
    }
}

pub mod contour {
    #[derive(Clone, Copy, Debug, Default)]
    pub struct Contours {
        pub start: f64,
        pub end: f64,
        pub size: f64,
    }
    impl Contours {
        pub fn new() -> Self {
            Contours::default()
        }
        pub fn start(mut self, v: f64) -> Self {
            self.start = v;
            self
        }
        pub fn end(mut self, v: f64) -> Self {
            self.end = v;
            self
        }
        pub fn size(mut self, v: f64) -> Self {
            self.size = v;
            self
        }
    }
}

pub mod layout {
    #[derive(Clone, Debug, Default, PartialEq)]
    pub struct Template(pub String);
    pub mod themes {
        use super::Template;
        use std::sync::LazyLock;
        pub static PLOTLY_WHITE: LazyLock<Template> = LazyLock::new(|| Template("plotly_white".into()));
    }
}

/// A plot that was turned into JSON or shown; the JSON is only its number.
#[derive(Clone, Debug, Default)]
pub struct Sheet {
    pub traces: Vec<Record>,
    pub layout: Layout,
}
thread_local! { static SHEETS: std::cell::RefCell<Vec<Sheet>> = std::cell::RefCell::new(vec![]); }
pub fn wipe() {
    SHEETS.with(|s| s.borrow_mut().clear())
}
pub fn sheets() -> usize {
    SHEETS.with(|s| s.borrow().len())
}
pub fn sheet(json: &str) -> Option<Sheet> {
    let i: usize = json.strip_prefix("plot ")?.parse().ok()?;
    SHEETS.with(|s| s.borrow().get(i).cloned())
}

#[derive(Default)]
pub struct Plot {
    pub traces: Vec<Box<dyn Trace>>,
    pub layout: Layout,
    pub local: bool,
}
impl Plot {
    pub fn new() -> Self {
        Plot::default()
    }
    pub fn use_local_plotly(&mut self) {
        self.local = true;
    }
    pub fn add_trace(&mut self, t: Box<dyn Trace>) {
        self.traces.push(t);
    }
    pub fn set_layout(&mut self, l: Layout) {
        self.layout = l;
    }
    pub fn to_json(&self) -> String {
        let s = Sheet { traces: self.traces.iter().map(|t| t.record()).collect(), layout: self.layout.clone() };
        SHEETS.with(|k| {
            k.borrow_mut().push(s);
            format!("plot {}", k.borrow().len() - 1)
        })
    }
    pub fn show(&self) {
        self.to_json();
    }
}
