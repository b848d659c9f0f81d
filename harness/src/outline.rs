//! Outlines out of operations, the way FreeType keeps them.

use postscript::type2::Operator::{self, *};

pub type Point = (f64, f64);

#[derive(Default)]
struct Pen {
    at: Point,
    contour: Vec<(Point, bool)>,
    points: Vec<Point>,
}

impl Pen {
    fn close(&mut self) {
        let mut contour = std::mem::take(&mut self.contour);
        // A last point on the curve that coincides with the first is dropped.
        if contour.len() > 1 {
            let (first, last) = (contour[0], contour[contour.len() - 1]);
            let round = |p: Point| (p.0.round(), p.1.round());
            if last.1 && round(first.0) == round(last.0) {
                contour.pop();
            }
        }
        // A contour of one point is dropped.
        if contour.len() > 1 {
            self.points.extend(contour.into_iter().map(|p| p.0));
        }
    }

    fn go(&mut self, x: f32, y: f32) {
        self.close();
        self.at.0 += x as f64;
        self.at.1 += y as f64;
    }

    fn add(&mut self, on: bool) {
        self.contour.push((self.at, on));
    }

    fn start(&mut self) {
        if self.contour.is_empty() {
            self.add(true);
        }
    }

    fn line(&mut self, x: f32, y: f32) {
        if x == 0.0 && y == 0.0 {
            // FreeType leaves such out.
            return;
        }
        self.start();
        self.at.0 += x as f64;
        self.at.1 += y as f64;
        self.add(true);
    }

    fn curve(&mut self, d: [f32; 6]) {
        self.start();
        for k in 0..3 {
            self.at.0 += d[2 * k] as f64;
            self.at.1 += d[2 * k + 1] as f64;
            self.add(k == 2);
        }
    }
}

/// The points of a glyph.
pub fn points(ops: &[(Operator, Vec<f32>)]) -> Vec<Point> {
    let mut pen = Pen::default();
    for (operator, v) in ops {
        match operator {
            RMoveTo => pen.go(v[0], v[1]),
            HMoveTo => pen.go(v[0], 0.0),
            VMoveTo => pen.go(0.0, v[0]),
            RLineTo => v.chunks_exact(2).for_each(|c| pen.line(c[0], c[1])),
            HLineTo | VLineTo => {
                let mut horizontal = *operator == HLineTo;
                for &d in v {
                    if horizontal {
                        pen.line(d, 0.0);
                    } else {
                        pen.line(0.0, d);
                    }
                    horizontal = !horizontal;
                }
            }
            RRCurveTo => v
                .chunks_exact(6)
                .for_each(|c| pen.curve(c.try_into().unwrap())),
            RCurveLine => {
                let n = v.len() - 2;
                v[..n]
                    .chunks_exact(6)
                    .for_each(|c| pen.curve(c.try_into().unwrap()));
                pen.line(v[n], v[n + 1]);
            }
            RLineCurve => {
                let n = v.len() - 6;
                v[..n].chunks_exact(2).for_each(|c| pen.line(c[0], c[1]));
                pen.curve(v[n..].try_into().unwrap());
            }
            HHCurveTo | VVCurveTo => {
                let odd = v.len() % 4;
                let mut extra = if odd == 1 { v[0] } else { 0.0 };
                for c in v[odd..].chunks_exact(4) {
                    if *operator == HHCurveTo {
                        pen.curve([c[0], extra, c[1], c[2], c[3], 0.0]);
                    } else {
                        pen.curve([extra, c[0], c[1], c[2], 0.0, c[3]]);
                    }
                    extra = 0.0;
                }
            }
            HVCurveTo | VHCurveTo => {
                let mut horizontal = *operator == HVCurveTo;
                let n = v.len() / 4;
                for (i, c) in v.chunks_exact(4).enumerate() {
                    let last = if i + 1 == n && v.len() % 4 == 1 {
                        v[v.len() - 1]
                    } else {
                        0.0
                    };
                    if horizontal {
                        pen.curve([c[0], 0.0, c[1], c[2], last, c[3]]);
                    } else {
                        pen.curve([0.0, c[0], c[1], c[2], c[3], last]);
                    }
                    horizontal = !horizontal;
                }
            }
            Flex => {
                pen.curve(v[0..6].try_into().unwrap());
                pen.curve(v[6..12].try_into().unwrap());
            }
            HFlex => {
                pen.curve([v[0], 0.0, v[1], v[2], v[3], 0.0]);
                pen.curve([v[4], 0.0, v[5], -v[2], v[6], 0.0]);
            }
            HFlex1 => {
                pen.curve([v[0], v[1], v[2], v[3], v[4], 0.0]);
                pen.curve([v[5], 0.0, v[6], v[7], v[8], -(v[1] + v[3] + v[7])]);
            }
            Flex1 => {
                let dx: f32 = v[0] + v[2] + v[4] + v[6] + v[8];
                let dy: f32 = v[1] + v[3] + v[5] + v[7] + v[9];
                pen.curve(v[0..6].try_into().unwrap());
                if dx.abs() > dy.abs() {
                    pen.curve([v[6], v[7], v[8], v[9], v[10], -dy]);
                } else {
                    pen.curve([v[6], v[7], v[8], v[9], -dx, v[10]]);
                }
            }
            _ => {}
        }
    }
    pen.close();
    pen.points
}
