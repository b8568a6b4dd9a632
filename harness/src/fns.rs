// The public functions by name, for the recorders (included by each of them).
type R = Result<(), &'static str>;
type ImgFn = fn(&[u8], usize, usize, &mut [u32]) -> R;
type BlkFn = fn(&[u8], &mut [u32]);

fn img_fn(n: &str) -> Option<ImgFn> {
    Some(match n {
        "atc_rgb4" => t::decode_atc_rgb4,
        "atc_rgba8" => t::decode_atc_rgba8,
        "bc1" => t::decode_bc1,
        "bc1a" => t::decode_bc1a,
        "bc2" => t::decode_bc2,
        "bc3" => t::decode_bc3,
        "bc4" => t::decode_bc4,
        "bc5" => t::decode_bc5,
        "bc6_signed" => t::decode_bc6_signed,
        "bc6_unsigned" => t::decode_bc6_unsigned,
        "bc7" => t::decode_bc7,
        "etc1" => t::decode_etc1,
        "etc2_rgb" => t::decode_etc2_rgb,
        "etc2_rgba1" => t::decode_etc2_rgba1,
        "etc2_rgba8" => t::decode_etc2_rgba8,
        "eacr" => t::decode_eacr,
        "eacr_signed" => t::decode_eacr_signed,
        "eacrg" => t::decode_eacrg,
        "eacrg_signed" => t::decode_eacrg_signed,
        "pvrtc_2bpp" => t::decode_pvrtc_2bpp,
        "pvrtc_4bpp" => t::decode_pvrtc_4bpp,
        #[cfg(feature = "alloc")]
        "crunch" => t::decode_crunch,
        #[cfg(feature = "alloc")]
        "unity_crunch" => t::decode_unity_crunch,
        "astc_4_4" => t::decode_astc_4_4,
        "astc_5_4" => t::decode_astc_5_4,
        "astc_5_5" => t::decode_astc_5_5,
        "astc_6_5" => t::decode_astc_6_5,
        "astc_6_6" => t::decode_astc_6_6,
        "astc_8_5" => t::decode_astc_8_5,
        "astc_8_6" => t::decode_astc_8_6,
        "astc_8_8" => t::decode_astc_8_8,
        "astc_10_5" => t::decode_astc_10_5,
        "astc_10_6" => t::decode_astc_10_6,
        "astc_10_8" => t::decode_astc_10_8,
        "astc_10_10" => t::decode_astc_10_10,
        "astc_12_10" => t::decode_astc_12_10,
        "astc_12_12" => t::decode_astc_12_12,
        _ => return None,
    })
}

fn blk_fn(n: &str) -> Option<BlkFn> {
    Some(match n {
        "atc_rgb4" => t::decode_atc_rgb4_block,
        "atc_rgba8" => t::decode_atc_rgba8_block,
        "bc1" => t::decode_bc1_block,
        "bc1a" => t::decode_bc1a_block,
        "bc2" => t::decode_bc2_block,
        "bc3" => t::decode_bc3_block,
        "bc4" => t::decode_bc4_block,
        "bc5" => t::decode_bc5_block,
        "bc6_signed" => t::decode_bc6_block_signed,
        "bc6_unsigned" => t::decode_bc6_block_unsigned,
        "bc7" => t::decode_bc7_block,
        "etc1" => t::decode_etc1_block,
        "etc2_rgb" => t::decode_etc2_rgb_block,
        "etc2_rgba1" => t::decode_etc2_rgba1_block,
        "etc2_rgba8" => t::decode_etc2_rgba8_block,
        "etc2_a8" => t::decode_etc2_a8_block,
        "eacr" => t::decode_eacr_block,
        "eacr_signed" => t::decode_eacr_signed_block,
        "eacrg" => t::decode_eacrg_block,
        "eacrg_signed" => t::decode_eacrg_signed_block,
        _ => return None,
    })
}

/// Makes the call; None if there is no such function.  For `info` the answer and the fields go into `info`.
fn invoke(f: &str, w: usize, h: usize, a: usize, b: usize, data: &[u8], img: &mut [u32], info: &mut [i32; 9]) -> Option<R> {
    if let Some(bf) = f.strip_prefix("block:") {
        match bf {
            "astc" => t::decode_astc_block(data, a, b, img),
            "bc6" => t::decode_bc6_block(data, img, a != 0),
            "eac" => t::decode_eac_block(data, a, img),
            "eac_signed" => t::decode_eac_signed_block(data, a, img),
            _ => blk_fn(bf)?(data, img),
        }
        return Some(Ok(()));
    }
    Some(match f {
        "astc" => t::decode_astc(data, w, h, a, b, img),
        "bc6" => t::decode_bc6(data, w, h, img, a != 0),
        "pvrtc" => t::decode_pvrtc(data, w, h, img, a != 0),
        // a: 0 = fresh struct, 1 = wrong struct_size; b: claimed size
        #[cfg(feature = "alloc")]
        "info" => {
            let mut i = t::CrnTextureInfo::default();
            if a == 1 {
                i.struct_size = 0;
            }
            let ok = i.crnd_get_texture_info(data, b as u32);
            // CrnFormat is not exported, but it is repr(u32)
            let fmt = unsafe { *(&i.format as *const _ as *const i32) };
            *info = [
                ok as i32, i.width as i32, i.height as i32, i.levels as i32, i.faces as i32, i.bytes_per_block as i32,
                i.userdata0 as i32, i.userdata1 as i32, fmt,
            ];
            Ok(())
        }
        _ => img_fn(f)?(data, w, h, img),
    })
}
