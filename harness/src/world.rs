//! Building blocks shared by the harnesses: an in-memory dataset behind the crate's own
//! `DataManager` trait, grid constructors, oracles for cell lookup.
#![allow(dead_code)]
use ndarray::prelude::*;
use upppp_rust::datamanager::{DataManager, GlobalStats, Manager, Timestep};

#[derive(Clone)]
pub struct Particle {
    pub pos: [f64; 3],
    pub vel: [f64; 3],
    pub radius: f64,
    pub id: f64,
    pub cloud: f64,
    pub density: f64,
    pub ptype: f64,
}
impl Particle {
    pub fn new(id: usize, pos: [f64; 3], vel: [f64; 3]) -> Self {
        Particle { pos, vel, radius: 0.5, id: id as f64, cloud: 0.5, density: 1.5, ptype: 1.0 }
    }
}
#[derive(Clone)]
pub struct Step {
    pub time: f64,
    pub p: Vec<Particle>,
}
/// in-memory dataset
pub struct Mem {
    pub steps: Vec<Step>,
    pub ts: Vec<Timestep>,
    pub lo: [f64; 3],
    pub hi: [f64; 3],
    pub vel: [[f64; 3]; 3],
    pub vmag: [f64; 3],
    pub sample_rate: f64,
    pub nparticles: usize,
}
impl Mem {
    pub fn new(steps: Vec<Step>) -> Self {
        let ts = steps.iter().map(to_timestep).collect();
        let np = steps.iter().map(|s| s.p.len()).max().unwrap_or(0);
        Mem {
            steps,
            ts,
            lo: [-64.0; 3],
            hi: [64.0; 3],
            vel: [[-64.0, 0.0, 64.0]; 3],
            vmag: [0.0, 8.0, 64.0],
            sample_rate: 1.0,
            nparticles: np,
        }
    }
}
pub fn to_timestep(s: &Step) -> Timestep {
    let n = s.p.len();
    let mut v = Array2::<f64>::zeros((n, 3));
    for (i, p) in s.p.iter().enumerate() {
        for k in 0..3 {
            v[[i, k]] = p.vel[k];
        }
    }
    Timestep::verify_new(
        s.time,
        s.p.iter().map(|p| p.pos).collect(),
        v,
        s.p.iter().map(|p| p.radius).collect(),
        s.p.iter().map(|p| p.id).collect(),
        s.p.iter().map(|p| p.cloud).collect(),
        s.p.iter().map(|p| p.density).collect(),
        s.p.iter().map(|p| p.ptype).collect(),
    )
}
impl DataManager for Mem {
    fn get_timestep(&mut self, timestep: usize) -> &Timestep {
        &self.ts[timestep]
    }
    fn global_stats(&self) -> GlobalStats {
        let dim = arr2(&[self.lo, self.hi]);
        let v = arr2(&[
            [self.vel[0][0], self.vel[1][0], self.vel[2][0]],
            [self.vel[0][1], self.vel[1][1], self.vel[2][1]],
            [self.vel[0][2], self.vel[1][2], self.vel[2][2]],
        ]);
        let t: Array1<f64> = self.steps.iter().map(|s| s.time).collect();
        let n = self.steps.len();
        GlobalStats::verify_new(
            dim,
            self.nparticles,
            n,
            if n > 0 { t[0] } else { 0.0 },
            if n > 0 { t[n - 1] } else { 0.0 },
            self.sample_rate,
            v,
            arr1(&self.vmag),
            t,
        )
    }
    fn stats(&self) {}
    fn get_timestep_unbuffered(&self, timestep: usize) -> Timestep {
        self.ts[timestep].clone()
    }
    fn setup_buffer(&mut self, _external_buffer_id: usize) {}
    fn get_timestep_buffer(&mut self, timestep: usize, _buffer: usize) -> &Timestep {
        &self.ts[timestep]
    }
    fn info(&self) -> Result<String, &'static str> {
        Ok(String::new())
    }
    fn set_rotation_angle(&mut self, _angle: f64, _axis: f64) {}
    fn set_rotation_anker(&mut self, _point: [f64; 3]) {}
}
impl Manager for Mem {}
