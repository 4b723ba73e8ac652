//! C20: meshes, images and materials survive the transport to the editor; malformed payloads are errors.
use crate::fw::{Dec, Property, R, Space, Tier, guard};
use base64::prelude::*;
use bevy_asset::prelude::*;
use bevy_asset::RenderAssetUsages;
use bevy_color::{Color, LinearRgba, prelude::*};
use bevy_image::*;
use bevy_math::{Affine2, Mat2, Vec2};
use bevy_mesh::{Indices, Mesh, MeshVertexAttribute, PrimitiveTopology, VertexAttributeValues};
use bevy_pbr::{OpaqueRendererMethod, ParallaxMappingMethod, StandardMaterial, UvChannel};
use bevy_platform::collections::HashMap;
use bevy_render::alpha::AlphaMode;
use bevy_rerecast_editor_integration::brp::{AffectorMesh, NavmeshInputResponse, VisualMesh};
use bevy_rerecast_editor_integration::transmission::*;
use bevy_transform::prelude::GlobalTransform;
use serde::{Serialize, de::DeserializeOwned};
use serde_json::Value;
use std::io::{Read, Write};
use std::sync::Arc;
use wgpu_types::*;

pub fn property() -> Property {
    Property {
        id: "C20",
        spaces,
        assumptions: &[
            "both sides are built with the same texture features; checked with all of them enabled",
            "labels, view formats and the asset usage of images are not transported (documented)",
            "malformed payloads: anything given to the transport's own deserialisation; the conversions of an already decoded value have no way to report an error",
        ],
    }
}

fn send<T: Serialize + DeserializeOwned>(v: &T) -> Result<T, String> {
    let j = serialize(v).map_err(|e| format!("cannot be sent: {e}"))?;
    // what travels is JSON text
    let j: Value = serde_json::from_str(&j.to_string()).map_err(|e| e.to_string())?;
    deserialize(&j).map_err(|e| format!("cannot be received: {e}"))
}

// ---- meshes -------------------------------------------------------------------------------

fn attributes() -> [MeshVertexAttribute; 8] {
    [Mesh::ATTRIBUTE_POSITION, Mesh::ATTRIBUTE_NORMAL, Mesh::ATTRIBUTE_UV_0, Mesh::ATTRIBUTE_UV_1, Mesh::ATTRIBUTE_TANGENT, Mesh::ATTRIBUTE_COLOR, Mesh::ATTRIBUTE_JOINT_WEIGHT, Mesh::ATTRIBUTE_JOINT_INDEX]
}
fn value(f: VertexFormat, n: usize, seed: usize) -> VertexAttributeValues {
    let x = |i: usize, k: usize| match (i * 5 + k + seed) % 6 {
        0 => 0.0f32,
        1 => -0.0,
        2 => 1.5 + i as f32 + k as f32 * 0.1 + seed as f32,
        3 => f32::MIN_POSITIVE / 2.0,
        4 => -1e30,
        _ => f32::INFINITY,
    };
    match f {
        VertexFormat::Float32x2 => VertexAttributeValues::Float32x2((0..n).map(|i| std::array::from_fn(|k| x(i, k))).collect()),
        VertexFormat::Float32x3 => VertexAttributeValues::Float32x3((0..n).map(|i| std::array::from_fn(|k| x(i, k))).collect()),
        VertexFormat::Float32x4 => VertexAttributeValues::Float32x4((0..n).map(|i| std::array::from_fn(|k| x(i, k))).collect()),
        VertexFormat::Uint16x4 => VertexAttributeValues::Uint16x4((0..n).map(|i| std::array::from_fn(|k| (i * 77 + k * 13 + seed) as u16 ^ if k == 3 { 0xff00 } else { 0 })).collect()),
        VertexFormat::Uint32 => VertexAttributeValues::Uint32((0..n).map(|i| i as u32 + seed as u32).collect()),
        VertexFormat::Unorm8x4 => VertexAttributeValues::Unorm8x4((0..n).map(|i| [i as u8, 1, 2, 255]).collect()),
        _ => unreachable!(),
    }
}
const TOPO: [PrimitiveTopology; 5] = [PrimitiveTopology::TriangleList, PrimitiveTopology::TriangleStrip, PrimitiveTopology::LineList, PrimitiveTopology::LineStrip, PrimitiveTopology::PointList];

/// Everything of a mesh that must arrive.
pub fn mesh_text(m: &Mesh) -> String {
    let mut a: Vec<String> = m.attributes().map(|(a, v)| format!("{:?}:{:?}:{:?}", a.id, VertexFormat::from(v), v.get_bytes())).collect();
    a.sort();
    format!("{:?} {:?} {:?}", m.primitive_topology(), a, m.indices())
}

#[derive(Debug, Clone, Copy)]
struct MeshCase {
    topo: usize,
    attrs: u8,
    other: u64,
    n: usize,
    idx: u64,
}
fn mesh_case(i: u64) -> MeshCase {
    let mut d = Dec(i);
    MeshCase { attrs: d.take(256) as u8, topo: d.take(5) as usize, other: d.take(3), n: [0, 1, 3][d.take(3) as usize], idx: d.take(5) }
}
impl MeshCase {
    fn build(&self, with_other: bool) -> Mesh {
        let mut m = Mesh::new(TOPO[self.topo], RenderAssetUsages::all());
        for (k, a) in attributes().iter().enumerate() {
            if self.attrs >> k & 1 == 1 {
                m.insert_attribute(*a, value(a.format, self.n, k));
            }
        }
        if with_other && self.other > 0 {
            // an attribute the transport does not know
            m.insert_attribute(MeshVertexAttribute::new("Own", 988540917, VertexFormat::Uint32), value(VertexFormat::Uint32, self.n, 3));
            if self.other > 1 {
                m.insert_attribute(MeshVertexAttribute::new("Next", 8, VertexFormat::Unorm8x4), value(VertexFormat::Unorm8x4, self.n, 3));
            }
        }
        match self.idx {
            1 => m.insert_indices(Indices::U16(vec![])),
            2 => m.insert_indices(Indices::U16(vec![0, 2, 1, 65535, 256, 255])),
            3 => m.insert_indices(Indices::U32(vec![2, 0, 1])),
            4 => m.insert_indices(Indices::U32(vec![0, u32::MAX, 65536])),
            _ => {}
        }
        m
    }
}
fn mesh_space() -> Space {
    Space::new("meshes", 256 * 5 * 3 * 3 * 5, move |i| format!("{:?}", mesh_case(i)), move |i, l| {
        let c = mesh_case(i);
        let got = send(&SerializedMesh::from_mesh(&c.build(true)))?.into_mesh();
        l.step();
        l.trace();
        l.state(i);
        if c.attrs != 0 && c.n > 0 {
            l.nontrivial += 1;
        }
        let (g, w) = (mesh_text(&got), mesh_text(&c.build(false)));
        if g != w { Err(format!("arrives as {g} instead of {w}")) } else { Ok(()) }
    })
}
fn large_mesh_space(t: Tier) -> Space {
    let sizes: Vec<usize> = t.pick(vec![250, 251, 65535, 65536, 70000], vec![249, 250, 251, 252, 65534, 65535, 65536, 70000, 1_000_000]);
    let n = sizes.len() as u64 * 2;
    let sz = sizes.clone();
    Space::new("large-meshes", n, move |i| format!("{} vertices", sz[(i / 2) as usize]), move |i, l| {
        let nv = sizes[(i / 2) as usize];
        let mut m = Mesh::new(PrimitiveTopology::TriangleList, RenderAssetUsages::all());
        for (k, a) in attributes().iter().enumerate() {
            m.insert_attribute(*a, value(a.format, nv, k));
        }
        m.insert_indices(if i % 2 == 0 { Indices::U32((0..nv as u32 * 3).map(|x| x * 7 % nv as u32).collect()) } else { Indices::U16((0..nv as u32 * 3).map(|x| x as u16).collect()) });
        let got = send(&SerializedMesh::from_mesh(&m))?.into_mesh();
        l.step();
        l.trace();
        l.state(i);
        l.nontrivial += 1;
        if mesh_text(&got) != mesh_text(&m) { Err("a large mesh arrives changed".into()) } else { Ok(()) }
    })
}

// ---- images -------------------------------------------------------------------------------

type Edit<T> = Arc<dyn Fn(&mut T) + Send + Sync>;
/// Named fields with the values they take (the first edit of each is a no-op: the default stays).
type Fields<T> = Vec<(&'static str, Vec<Edit<T>>)>;

macro_rules! f {
    ($t:ty, $name:expr, |$m:ident| $place:expr, [$($v:expr),* $(,)?]) => {
        ($name, vec![$(Arc::new(move |$m: &mut $t| $place = $v) as Edit<$t>),*])
    };
}
fn view(i: &mut Image) -> &mut TextureViewDescriptor<Option<&'static str>> {
    i.texture_view_descriptor.get_or_insert_with(Default::default)
}
fn samp(i: &mut Image) -> &mut ImageSamplerDescriptor {
    if let ImageSampler::Default = i.sampler {
        i.sampler = ImageSampler::Descriptor(ImageSamplerDescriptor::default());
    }
    match &mut i.sampler {
        ImageSampler::Descriptor(d) => d,
        _ => unreachable!(),
    }
}
fn image_fields() -> Fields<Image> {
    use ImageAddressMode as A;
    use ImageCompareFunction as C;
    use ImageFilterMode as F;
    let ext = |w, h, d| Extent3d { width: w, height: h, depth_or_array_layers: d };
    let formats = [
        TextureFormat::R8Unorm, TextureFormat::R16Float, TextureFormat::Rgba8UnormSrgb, TextureFormat::Rgba8Unorm, TextureFormat::Bgra8UnormSrgb, TextureFormat::Rgba16Float, TextureFormat::Rgba32Float,
        TextureFormat::Rgb9e5Ufloat, TextureFormat::Depth32Float, TextureFormat::Bc1RgbaUnormSrgb, TextureFormat::Bc7RgbaUnorm, TextureFormat::Etc2Rgba8UnormSrgb,
        TextureFormat::Astc { block: AstcBlock::B4x4, channel: AstcChannel::UnormSrgb }, TextureFormat::Astc { block: AstcBlock::B12x12, channel: AstcChannel::Hdr },
    ];
    let mut v: Fields<Image> = vec![
        f!(Image, "data", |i| i.data, [None, Some(vec![]), Some(vec![7]), Some((0..=255).collect()), Some(vec![0; 4096]), Some((0..70000u32).map(|x| (x * 31 >> 3) as u8).collect())]),
        f!(Image, "size", |i| i.texture_descriptor.size, [ext(1, 1, 1), ext(2, 1, 1), ext(1, 3, 1), ext(1, 1, 6), ext(300, 70000, 5), ext(0, 0, 0)]),
        f!(Image, "mips", |i| i.texture_descriptor.mip_level_count, [1, 2, 11]),
        f!(Image, "samples", |i| i.texture_descriptor.sample_count, [1, 4]),
        f!(Image, "dimension", |i| i.texture_descriptor.dimension, [TextureDimension::D2, TextureDimension::D1, TextureDimension::D3]),
        f!(Image, "usage", |i| i.texture_descriptor.usage, [TextureUsages::TEXTURE_BINDING | TextureUsages::COPY_DST, TextureUsages::empty(), TextureUsages::COPY_SRC, TextureUsages::STORAGE_BINDING, TextureUsages::RENDER_ATTACHMENT, TextureUsages::all()]),
        f!(Image, "view format", |i| view(i).format, [None, Some(TextureFormat::R8Uint), Some(TextureFormat::Rgba8UnormSrgb)]),
        f!(Image, "view dimension", |i| view(i).dimension, [None, Some(TextureViewDimension::D1), Some(TextureViewDimension::D2), Some(TextureViewDimension::D2Array), Some(TextureViewDimension::Cube), Some(TextureViewDimension::CubeArray), Some(TextureViewDimension::D3)]),
        f!(Image, "view usage", |i| view(i).usage, [None, Some(TextureUsages::COPY_DST), Some(TextureUsages::empty())]),
        f!(Image, "view aspect", |i| view(i).aspect, [TextureAspect::All, TextureAspect::DepthOnly, TextureAspect::StencilOnly]),
        f!(Image, "view base mip", |i| view(i).base_mip_level, [0, 1, 300]),
        f!(Image, "view mips", |i| view(i).mip_level_count, [None, Some(1), Some(0)]),
        f!(Image, "view base layer", |i| view(i).base_array_layer, [0, 2, 70000]),
        f!(Image, "view layers", |i| view(i).array_layer_count, [None, Some(6), Some(0)]),
        f!(Image, "view", |i| i.texture_view_descriptor, [None, Some(Default::default())]),
        f!(Image, "sampler", |i| i.sampler, [ImageSampler::Default, ImageSampler::Descriptor(ImageSamplerDescriptor::default()), ImageSampler::nearest(), ImageSampler::linear()]),
        f!(Image, "sampler label", |i| samp(i).label, [None, Some(String::new()), Some("a label \u{fc}".into())]),
        f!(Image, "address u", |i| samp(i).address_mode_u, [A::ClampToEdge, A::Repeat, A::MirrorRepeat, A::ClampToBorder]),
        f!(Image, "address v", |i| samp(i).address_mode_v, [A::ClampToEdge, A::Repeat, A::MirrorRepeat, A::ClampToBorder]),
        f!(Image, "address w", |i| samp(i).address_mode_w, [A::ClampToEdge, A::Repeat, A::MirrorRepeat, A::ClampToBorder]),
        f!(Image, "mag", |i| samp(i).mag_filter, [F::Nearest, F::Linear]),
        f!(Image, "min", |i| samp(i).min_filter, [F::Nearest, F::Linear]),
        f!(Image, "mip filter", |i| samp(i).mipmap_filter, [F::Nearest, F::Linear]),
        f!(Image, "lod min", |i| samp(i).lod_min_clamp, [0.0, 1.5, -0.0]),
        f!(Image, "lod max", |i| samp(i).lod_max_clamp, [32.0, f32::INFINITY, 2.0]),
        f!(Image, "compare", |i| samp(i).compare, [None, Some(C::Never), Some(C::Less), Some(C::Equal), Some(C::LessEqual), Some(C::Greater), Some(C::NotEqual), Some(C::GreaterEqual), Some(C::Always)]),
        f!(Image, "anisotropy", |i| samp(i).anisotropy_clamp, [1, 16, 65535]),
        f!(Image, "border", |i| samp(i).border_color, [None, Some(ImageSamplerBorderColor::TransparentBlack), Some(ImageSamplerBorderColor::OpaqueBlack), Some(ImageSamplerBorderColor::OpaqueWhite), Some(ImageSamplerBorderColor::Zero)]),
    ];
    v.push(("format", formats.into_iter().map(|f| Arc::new(move |i: &mut Image| i.texture_descriptor.format = f) as Edit<Image>).collect()));
    v
}
/// Everything of an image that must arrive.
pub fn image_text(i: &Image) -> String {
    let d = &i.texture_descriptor;
    let v = i.texture_view_descriptor.as_ref().map(|v| format!("{:?} {:?} {:?} {:?} {} {:?} {} {:?}", v.format, v.dimension, v.usage, v.aspect, v.base_mip_level, v.mip_level_count, v.base_array_layer, v.array_layer_count));
    format!("{:?} {} {} {:?} {:?} {:?} sampler {:?} view {v:?} data {:?}", d.size, d.mip_level_count, d.sample_count, d.dimension, d.format, d.usage, i.sampler, i.data)
}

/// All single values and all pairs of values of two fields: (field, value) choices by rank.
fn pairs<T>(f: &Fields<T>) -> Vec<[(usize, usize); 2]> {
    let mut v = vec![];
    for a in 0..f.len() {
        for b in a..f.len() {
            for x in 0..f[a].1.len() {
                for y in 0..f[b].1.len() {
                    if a != b || x == y {
                        v.push([(a, x), (b, y)]);
                    }
                }
            }
        }
    }
    v
}
/// All triples of values of three fields.
fn triples<T>(f: &Fields<T>) -> Vec<[(usize, usize); 3]> {
    let mut v = vec![];
    for a in 0..f.len() {
        for b in a + 1..f.len() {
            for c in b + 1..f.len() {
                for x in 0..f[a].1.len() {
                    for y in 0..f[b].1.len() {
                        for z in 0..f[c].1.len() {
                            v.push([(a, x), (b, y), (c, z)]);
                        }
                    }
                }
            }
        }
    }
    v
}
fn names<T>(f: &Fields<T>, c: &[(usize, usize)]) -> String {
    c.iter().map(|(a, x)| format!("{} := value {x}", f[*a].0)).collect::<Vec<_>>().join(", ")
}

fn image_space<const N: usize>(name: &str, choices: Vec<[(usize, usize); N]>, skip_big: bool) -> Space {
    let mut fields = image_fields();
    if skip_big {
        fields[0].1.truncate(4);
    }
    let choices: Vec<_> = choices.into_iter().filter(|c| c.iter().all(|(a, x)| *x < fields[*a].1.len())).collect();
    let (ff, cc) = (Arc::new(fields), Arc::new(choices));
    let (f2, c2) = (ff.clone(), cc.clone());
    Space::new(name, cc.len() as u64, move |i| names(&ff, &cc[i as usize]), move |i, l| {
        let mut im = Image::default();
        for (a, x) in &c2[i as usize] {
            (f2[*a].1[*x])(&mut im);
        }
        let got = send(&SerializedImage::from_image(im.clone()))?.into_image();
        l.step();
        l.trace();
        l.state(i ^ (N as u64) << 40);
        l.nontrivial += 1;
        let (g, w) = (image_text(&got), image_text(&im));
        if g != w { Err(format!("arrives as {:.600} instead of {:.600}", g, w)) } else { Ok(()) }
    })
}

// ---- materials ----------------------------------------------------------------------------

type M = StandardMaterial;
fn material_fields() -> Fields<M> {
    use UvChannel::*;
    macro_rules! floats { ($($n:ident),*) => { vec![$(f!(M, stringify!($n), |m| m.$n, [0.375, 0.0, -2.5, f32::INFINITY])),*] } }
    macro_rules! channels { ($($n:ident),*) => { vec![$(f!(M, stringify!($n), |m| m.$n, [Uv1, Uv0])),*] } }
    macro_rules! bools { ($($n:ident),*) => { vec![$(f!(M, stringify!($n), |m| m.$n, [true, false])),*] } }
    macro_rules! colors { ($($n:ident),*) => { vec![$(f!(M, stringify!($n), |m| m.$n, [Color::srgb(0.1, 0.2, 0.3), Color::srgba(0.9, 0.8, 0.7, 0.25), Color::LinearRgba(LinearRgba::new(0.1, 2.0, 0.3, 0.5)), Color::Hsla(Hsla::new(120.0, 0.5, 0.25, 0.75)), Color::Xyza(Xyza::new(0.1, 0.2, 0.3, 0.4)), Color::Oklcha(Oklcha::new(0.1, 0.2, 33.0, 1.0))])),*] } }
    let mut v: Fields<M> = vec![];
    v.extend(floats!(emissive_exposure_weight, perceptual_roughness, metallic, reflectance, diffuse_transmission, specular_transmission, thickness, ior, attenuation_distance, clearcoat, clearcoat_perceptual_roughness, anisotropy_strength, anisotropy_rotation, depth_bias, parallax_depth_scale, max_parallax_layer_count, lightmap_exposure));
    v.extend(channels!(base_color_channel, emissive_channel, metallic_roughness_channel, diffuse_transmission_channel, specular_transmission_channel, thickness_channel, normal_map_channel, occlusion_channel, specular_channel, specular_tint_channel, clearcoat_channel, clearcoat_roughness_channel, clearcoat_normal_channel, anisotropy_channel));
    v.extend(bools!(flip_normal_map_y, double_sided, unlit, fog_enabled));
    v.extend(colors!(base_color, specular_tint, attenuation_color));
    v.push(f!(M, "emissive", |m| m.emissive, [LinearRgba::new(0.1, 0.2, 0.3, 0.4), LinearRgba::new(100.0, 0.0, 3.0, 1.0)]));
    v.push(f!(M, "cull_mode", |m| m.cull_mode, [None, Some(Face::Front), Some(Face::Back)]));
    v.push(f!(M, "alpha_mode", |m| m.alpha_mode, [AlphaMode::Opaque, AlphaMode::Mask(0.25), AlphaMode::Mask(1.0), AlphaMode::Blend, AlphaMode::Premultiplied, AlphaMode::AlphaToCoverage, AlphaMode::Add, AlphaMode::Multiply]));
    v.push(f!(M, "parallax_mapping_method", |m| m.parallax_mapping_method, [ParallaxMappingMethod::Occlusion, ParallaxMappingMethod::Relief { max_steps: 4 }, ParallaxMappingMethod::Relief { max_steps: 70000 }]));
    v.push(f!(M, "opaque_render_method", |m| m.opaque_render_method, [OpaqueRendererMethod::Forward, OpaqueRendererMethod::Deferred, OpaqueRendererMethod::Auto]));
    v.push(f!(M, "deferred_lighting_pass_id", |m| m.deferred_lighting_pass_id, [0, 1, 200, 255]));
    v.push(f!(M, "uv_transform", |m| m.uv_transform, [Affine2::IDENTITY, Affine2 { matrix2: Mat2::from_cols(Vec2::new(1.0, 2.0), Vec2::new(3.0, 4.0)), translation: Vec2::new(5.0, -6.0) }]));
    v
}
macro_rules! slots {
    ($m:expr, $f:ident) => {{
        let m = $m;
        [
            ("base_color_texture", m.base_color_texture.$f()), ("emissive_texture", m.emissive_texture.$f()), ("metallic_roughness_texture", m.metallic_roughness_texture.$f()),
            ("diffuse_transmission_texture", m.diffuse_transmission_texture.$f()), ("specular_transmission_texture", m.specular_transmission_texture.$f()), ("thickness_texture", m.thickness_texture.$f()),
            ("normal_map_texture", m.normal_map_texture.$f()), ("occlusion_texture", m.occlusion_texture.$f()), ("specular_texture", m.specular_texture.$f()), ("specular_tint_texture", m.specular_tint_texture.$f()),
            ("clearcoat_texture", m.clearcoat_texture.$f()), ("clearcoat_roughness_texture", m.clearcoat_roughness_texture.$f()), ("clearcoat_normal_texture", m.clearcoat_normal_texture.$f()),
            ("anisotropy_texture", m.anisotropy_texture.$f()), ("depth_map", m.depth_map.$f()),
        ]
    }};
}
pub const SLOTS: usize = 15;
pub fn slots_mut(m: &mut M) -> [(&'static str, &mut Option<Handle<Image>>); SLOTS] {
    macro_rules! s { ($($n:ident),*) => { [$((stringify!($n), &mut m.$n)),*] } }
    s!(base_color_texture, emissive_texture, metallic_roughness_texture, diffuse_transmission_texture, specular_transmission_texture, thickness_texture, normal_map_texture, occlusion_texture, specular_texture, specular_tint_texture, clearcoat_texture, clearcoat_roughness_texture, clearcoat_normal_texture, anisotropy_texture, depth_map)
}
/// Everything of a material that must arrive; textures are described by their content.
pub fn material_text(m: &M, images: &Assets<Image>) -> String {
    let tex: Vec<String> = slots!(m, as_ref).iter().map(|(n, h)| format!("{n}={}", h.map_or("none".into(), |h| images.get(h).map_or("missing".into(), image_text)))).collect();
    let mut c = m.clone();
    for (_, s) in slots_mut(&mut c) {
        *s = None;
    }
    format!("{c:?} {tex:?}")
}
pub fn pixel(k: u8) -> Image {
    Image { data: Some(vec![k; 4]), ..Image::default() }
}
/// Sends materials the way the request handler does; None for a material that was refused.
fn send_materials(ms: &[M], images: &Assets<Image>) -> Result<(Vec<Option<M>>, Assets<Image>, usize), String> {
    let mut idx = HashMap::new();
    let mut cache = vec![];
    let mut out = vec![];
    for m in ms {
        out.push(SerializedStandardMaterial::try_from_standard_material(m.clone(), &mut idx, images, &mut cache).ok());
    }
    let n = cache.len();
    let (out, cache): (Vec<Option<SerializedStandardMaterial>>, Vec<SerializedImage>) = send(&(out, cache))?;
    let mut handles = HashMap::new();
    let mut got = Assets::<Image>::default();
    let r = out.into_iter().map(|m| m.map(|m| m.into_standard_material(&mut handles, &mut got, &cache))).collect();
    Ok((r, got, n))
}
fn material_space<const N: usize>(name: &str, choices: Vec<[(usize, usize); N]>) -> Space {
    let (ff, cc) = (Arc::new(material_fields()), Arc::new(choices));
    let (f2, c2) = (ff.clone(), cc.clone());
    Space::new(name, cc.len() as u64, move |i| names(&ff, &cc[i as usize]), move |i, l| {
        let mut m = M::default();
        for (a, x) in &c2[i as usize] {
            (f2[*a].1[*x])(&mut m);
        }
        let (got, im, _) = send_materials(std::slice::from_ref(&m), &Assets::default())?;
        l.step();
        l.trace();
        l.state(i ^ (N as u64 + 10) << 40);
        l.nontrivial += 1;
        let g = got[0].as_ref().ok_or("a material without textures is refused")?;
        let (g, w) = (material_text(g, &im), material_text(&m, &im));
        if g != w { Err(format!("arrives as {g} instead of {w}")) } else { Ok(()) }
    })
}
/// Two or three materials whose textures are drawn from two images and a missing one.
fn texture_space(name: &str, mats: u32, slots_used: usize) -> Space {
    // every material has up to two slots set: (slot, image) or nothing
    let per = (SLOTS.min(slots_used) as u64 * 3 + 1).pow(2);
    let dec = move |i: u64| -> Vec<Vec<(usize, u64)>> {
        let mut d = Dec(i);
        (0..mats)
            .map(|_| {
                (0..2)
                    .filter_map(|_| {
                        let c = d.take(slots_used as u64 * 3 + 1);
                        (c > 0).then(|| (((c - 1) / 3) as usize, (c - 1) % 3))
                    })
                    .collect()
            })
            .collect()
    };
    Space::new(name, per.pow(mats), move |i| format!("materials with textures (slot, image; image 2 is missing): {:?}", dec(i)), move |i, l| {
        let mut images = Assets::<Image>::default();
        let h = [images.add(pixel(1)), images.add(pixel(2)), images.reserve_handle()];
        let mats: Vec<M> = dec(i)
            .iter()
            .enumerate()
            .map(|(k, c)| {
                let mut m = M { metallic: k as f32, ..M::default() };
                for (s, x) in c {
                    *slots_mut(&mut m)[*s].1 = Some(h[*x as usize].clone());
                }
                m
            })
            .collect();
        let (got, im, sent) = send_materials(&mats, &images)?;
        l.steps(mats.len() as u64);
        l.trace();
        l.state(i ^ 7 << 50);
        let mut used = std::collections::HashSet::new();
        for (k, (g, m)) in got.iter().zip(&mats).enumerate() {
            let missing = slots!(m, as_ref).iter().any(|(_, x)| x.is_some_and(|x| *x == h[2]));
            for (_, x) in slots!(m, as_ref) {
                used.extend(x.filter(|x| **x != h[2]).cloned());
            }
            match g {
                None if missing => {}
                None => return Err(format!("material {k} is refused although all its textures are there")),
                Some(_) if missing => return Err(format!("material {k} is sent although a texture is missing")),
                Some(g) => {
                    l.nontrivial += 1;
                    let (g, w) = (material_text(g, &im), material_text(m, &images));
                    if g != w {
                        return Err(format!("material {k} arrives as {g} instead of {w}"));
                    }
                }
            }
        }
        if sent > used.len() {
            return Err(format!("{sent} images sent for {} textures", used.len()));
        }
        Ok(())
    })
}

// ---- malformed payloads ---------------------------------------------------------------------

fn response(k: usize) -> NavmeshInputResponse {
    let mut r = NavmeshInputResponse::default();
    if k == 0 {
        return r;
    }
    let mut images = Assets::<Image>::default();
    let h = images.add(Image { sampler: ImageSampler::Descriptor(ImageSamplerDescriptor { label: Some("x".into()), ..Default::default() }), ..pixel(9) });
    let mut m = M::default();
    m.base_color_texture = Some(h);
    let (mut idx, mut cache) = (HashMap::new(), vec![]);
    r.materials.push(SerializedStandardMaterial::try_from_standard_material(m, &mut idx, &images, &mut cache).unwrap());
    r.images = cache;
    r.meshes.push(SerializedMesh::from_mesh(&MeshCase { topo: 0, attrs: 0xff, other: 0, n: 1, idx: 3 }.build(false)));
    r.visual_meshes.push(VisualMesh { transform: GlobalTransform::IDENTITY, mesh: 0, material: Some(0) });
    r.affector_meshes.push(AffectorMesh { transform: GlobalTransform::from_xyz(1.0, 2.0, 3.0), mesh: rerecast::TriMesh { vertices: vec![glam::Vec3A::ONE; 3], indices: vec![glam::UVec3::new(0, 1, 2)], area_types: vec![rerecast::AreaType::NOT_WALKABLE] } });
    r
}
fn response_text(r: &NavmeshInputResponse) -> String {
    format!("{r:?}")
}
fn gz(b: &[u8]) -> Vec<u8> {
    let mut e = flate2::write::GzEncoder::new(Vec::new(), flate2::Compression::default());
    e.write_all(b).unwrap();
    e.finish().unwrap()
}
fn ungz(b: &[u8]) -> Vec<u8> {
    let mut v = vec![];
    flate2::read::GzDecoder::new(b).read_to_end(&mut v).unwrap();
    v
}
fn text(b: &[u8]) -> Value {
    Value::String(BASE64_STANDARD.encode(b))
}
/// None: an error was reported. Panics are caught by the caller.
fn receive(v: &Value) -> Result<Option<String>, String> {
    guard(|| deserialize::<NavmeshInputResponse>(v).ok().map(|r| response_text(&r)))
}

fn malformed(t: Tier) -> Vec<Space> {
    let r = response(1);
    let want = response_text(&r);
    let j = serialize(&r).unwrap();
    let s = j.as_str().unwrap().to_string();
    let g = BASE64_STANDARD.decode(&s).unwrap();
    let b = ungz(&g);
    let mut out = vec![];

    let odd: Vec<Value> = vec![
        Value::Null, Value::Bool(true), 0.into(), (-1.5).into(), Value::Array(vec![j.clone()]), serde_json::json!({"result": j}), "".into(), "=".into(), "====".into(), "\u{0}".into(), "\u{fc}".into(), " ".into(),
        format!(" {s}").into(), format!("{s}\n").into(), format!("{s}A").into(), format!("{s}====").into(), s.replace('=', "").chars().chain(['!']).collect::<String>().into(), text(&[]), text(b"not gzip"), text(&b), text(&gz(&[])), text(&gz(&gz(&b))),
    ];
    let o2 = odd.clone();
    out.push(Space::new("odd-values", odd.len() as u64, move |i| format!("{:.200}", odd[i as usize].to_string()), move |i, l| {
        l.step();
        l.trace();
        l.state(i ^ 9 << 50);
        l.nontrivial += 1;
        match receive(&o2[i as usize])? {
            None => Ok(()),
            Some(_) => Err("accepted as a response".into()),
        }
    }));

    // every prefix of the text, of the compressed bytes and of the plain bytes
    let (s2, g2, b2) = (s.clone(), g.clone(), b.clone());
    let n = s.len() + g.len() + b.len();
    let (sl, gl) = (s.len(), g.len());
    out.push(Space::new(
        "truncations",
        n as u64,
        move |i| {
            let i = i as usize;
            if i < sl { format!("first {i} characters of {sl}") } else if i < sl + gl { format!("first {} compressed bytes of {gl}", i - sl) } else { format!("first {} plain bytes", i - sl - gl) }
        },
        move |i, l| {
            let i = i as usize;
            let v = if i < sl { Value::String(s2[..i].into()) } else if i < sl + gl { text(&g2[..i - sl]) } else { text(&gz(&b2[..i - sl - gl])) };
            l.step();
            l.trace();
            l.state(i as u64 ^ 11 << 50);
            l.nontrivial += 1;
            match receive(&v)? {
                None => Ok(()),
                Some(_) => Err("a truncated payload is accepted".into()),
            }
        },
    ));

    // every bit of the compressed bytes flipped; the checksum must catch what matters
    let (g3, w3) = (g.clone(), want.clone());
    out.push(Space::new("flipped-bits", g.len() as u64 * 8, move |i| format!("bit {} of compressed byte {}", i % 8, i / 8), move |i, l| {
        let mut x = g3.clone();
        x[(i / 8) as usize] ^= 1 << (i % 8);
        l.step();
        l.trace();
        l.state(i ^ 13 << 50);
        l.nontrivial += 1;
        match receive(&text(&x))? {
            Some(t) if t != w3 => Err("a damaged payload is accepted as something else".into()),
            _ => Ok(()),
        }
    }));
    // every character of the text replaced
    let (s4, w4) = (s.clone(), want.clone());
    let alpha: Vec<u8> = t.pick(b"A/=! \x7f".to_vec(), (0..128).collect());
    let na = alpha.len() as u64;
    out.push(Space::new("replaced-characters", s.len() as u64 * na, move |i| format!("character {} replaced by number {}", i / na, i % na), move |i, l| {
        let mut x = s4.clone().into_bytes();
        x[(i / na) as usize] = alpha[(i % na) as usize];
        l.step();
        l.trace();
        l.state(i ^ 15 << 50);
        l.nontrivial += 1;
        match receive(&Value::String(String::from_utf8(x).unwrap()))? {
            Some(t) if t != w4 => Err("a damaged payload is accepted as something else".into()),
            _ => Ok(()),
        }
    }));
    // every plain byte replaced, with a correct checksum: an error or some value, never a crash
    let vals: Vec<u8> = t.pick(vec![0, 1, 2, 3, 250, 251, 252, 253, 254, 255], (0..=255).collect());
    let nv = vals.len() as u64;
    let b5 = b.clone();
    out.push(Space::new("replaced-bytes", b.len() as u64 * nv, move |i| format!("plain byte {} replaced by number {}", i / nv, i % nv), move |i, l| {
        let mut x = b5.clone();
        x[(i / nv) as usize] = vals[(i % nv) as usize];
        l.step();
        l.trace();
        l.state(i ^ 17 << 50);
        l.nontrivial += 1;
        receive(&text(&gz(&x))).map(|_| ())
    }));
    // lengths of up to eight bytes anywhere
    let b6 = b.clone();
    let big: Vec<Vec<u8>> = vec![vec![252, 255, 255, 255, 127], vec![252, 255, 255, 255, 255], vec![253, 0, 0, 0, 0, 1, 0, 0, 0], vec![253, 255, 255, 255, 255, 255, 255, 255, 127], vec![253, 255, 255, 255, 255, 255, 255, 255, 255]];
    let nb = big.len() as u64;
    out.push(Space::new("huge-lengths", b.len() as u64 * nb, move |i| format!("plain byte {} replaced by huge length {}", i / nb, i % nb), move |i, l| {
        let k = (i / nb) as usize;
        let mut x = b6[..k].to_vec();
        x.extend(&big[(i % nb) as usize]);
        x.extend(&b6[k + 1..]);
        l.step();
        l.trace();
        l.state(i ^ 19 << 50);
        l.nontrivial += 1;
        receive(&text(&gz(&x))).map(|_| ())
    }));
    // the unharmed payloads
    out.push(Space::new("responses", 2, |i| format!("response {i}"), move |i, l| {
        let r = response(i as usize);
        l.step();
        l.trace();
        l.nontrivial += 1;
        let g = receive(&serialize(&r).map_err(|e| e.to_string())?)?;
        if g.as_ref() != Some(&response_text(&r)) { Err(format!("arrives as {g:?}")) } else { Ok(()) as R }
    }));
    out
}

fn spaces(t: Tier) -> Vec<Space> {
    let mut v = vec![mesh_space(), large_mesh_space(t), image_space("images-pairs", pairs(&image_fields()), false), material_space("materials-pairs", pairs(&material_fields())), texture_space("textures-1", 1, SLOTS), texture_space("textures-2", 2, t.pick(3, 6))];
    if t.thorough() {
        v.push(texture_space("textures-2-all", 2, SLOTS));
        v.push(texture_space("textures-3", 3, 3));
        v.push(image_space("images-triples", triples(&image_fields()), true));
        v.push(material_space("materials-triples", triples(&material_fields())));
    }
    v.extend(malformed(t));
    v
}
