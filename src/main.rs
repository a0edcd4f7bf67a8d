use micromath::F32Ext as X;
fn main(){
 let i=f32::INFINITY;
 for (a,b) in [(i,2.0),(i,-2.0),(i,0.5),(-i,2.0),(-i,3.0),(-i,-2.0),(-i,-3.0),(-i,0.5),(2.0,i),(2.0,-i),(0.5,i),(0.5,-i),(1.0,i),(1.0,-i),(-1.0,i),(-2.0,i),(-0.5,i),(i,i),(i,-i),(0.0,i),(0.0,-i),(-0.0,i),(-0.0,3.0),(-0.0,-3.0),(-0.0,2.0)] {
  println!("powf({a:?},{b:?}) = {:?}  std {:?}", X::powf(a,b), f32::powf(a,b));
 }
 for (a,b) in [(i,1.0),(1.0,i),(i,f32::NAN),(-i,2.0),(i,i)] { println!("hypot({a:?},{b:?}) = {:?}", X::hypot(a,b)); }
 for (a,b) in [(5.0,i),(-5.0,i),(5.0,-i),(-5.0,-i),(0.0,i),(i,2.0)] { println!("euclid({a:?},{b:?}) = {:?} {:?} std {:?} {:?}", X::div_euclid(a,b), X::rem_euclid(a,b), f32::div_euclid(a,b), f32::rem_euclid(a,b)); }
 for (a,b) in [(5.0,i),(0.5,i),(5.0,0.0),(0.5,0.0),(5.0,1.0),(1.0,1.0),(0.5,1.0),(1.0,0.0),(1.0,i),(i,i)] { println!("log({a:?},{b:?}) = {:?} std {:?}", X::log(a,b), f32::log(a,b)); }
 println!("{:?} {:?} {:?}", X::tan(1.5707964), X::hypot(1e30,1e30), X::hypot(1e-30,1e-30));
}
