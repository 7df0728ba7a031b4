FMT = {'drop_use': ['std::'], 'methods': {'len': 'vx_len', 'is_empty': 'vx_is_empty'}}
TBQ = {'drop_use': [r'bitvec::bitvec;']}
STEG = {'structs': ['WatermarkToDwtCoefficientsWriter', 'WatermarkFromDwtCoefficientsReader']}
EMBED = {
    'embedding/src/lib.rs': {},
    'embedding/src/io/steganography.rs': STEG,
    'embedding/src/io/mod.rs': {},
    'embedding/src/io/data.rs': {'structs': ['Data'], 'drop_use': ['bitvec']},
    'embedding/src/haar/mod.rs': {},
    'encoding/src/lib.rs': {},
    'utils/src/bytes.rs': {},
}
EMBED_LEMMAS = ['bytes', 'framing', 'bits', 'coding', 'coeff', 'dwtnum', 'haar', 'haarnum', 'haarind', 'haarsum', 'embed']
UNITS = {
    'C12': {
        'files': {'utils/src/bytes.rs': {'roots': ['vec_u16_to_bytes', 'vec_u16_from_bytes', 'vec_i64_to_bytes', 'vec_i64_from_bytes']}},
        'lemmas': ['bytes'], 'theorems': 'c12',
    },
    'C08': {
        'files': {
            'embedding/src/io/data.rs': {'roots': ['Data::serialize', 'Data::new', 'deserialize'], 'structs': ['Data'], 'drop_use': ['bitvec']},
            'utils/src/bytes.rs': {},
        },
        'lemmas': ['bytes', 'framing'], 'theorems': 'c08', 'modes': ['accept', 'refuse'],
    },
    'C06': {
        'files': {'encoding/src/lib.rs': {'roots': ['get_code_by_codeword_length']}},
        'prelude': ['bitvec', 'ldpc'], 'lemmas': ['bits', 'coding'], 'theorems': 'c06',
    },
    'C05': {
        'files': {'encoding/src/lib.rs': {'roots': ['encode', 'decode']}},
        'prelude': ['bitvec', 'ldpc'], 'lemmas': ['bits', 'coding'], 'theorems': 'c05', 'modes': ['accept', 'refuse'],
    },
    'C11': {
        'files': {'three-bit-quantization/src/lib.rs': dict(TBQ, roots=['perturbation_vector_as_bytes', 'perturbation_vector_from_bytes'])},
        'prelude': ['floats', 'bitvec'], 'lemmas': ['bits'], 'theorems': 'c11',
    },
    'C10': {
        'files': {'three-bit-quantization/src/lib.rs': dict(TBQ, roots=['three_bit_quantization'])},
        'prelude': ['floats', 'bitvec'], 'lemmas': ['bits', 'quant'], 'theorems': 'c10',
    },
    'C09': {
        'files': {'three-bit-quantization/src/lib.rs': dict(TBQ, roots=['three_bit_dequantization', 'three_bit_quantization'])},
        'prelude': ['floats', 'bitvec'], 'lemmas': ['bits', 'quant'], 'theorems': 'c09',
    },
    'C07': {
        'files': {'watermarking/src/watermark.rs': {'roots': ['Watermark::new', 'Watermark::serialize', 'deserialize'], 'structs': ['Watermark'], 'drop_use': ['image::']},
                  'three-bit-quantization/src/lib.rs': TBQ},
        'prelude': ['floats', 'bitvec', 'strings'], 'lemmas': ['bits', 'record'], 'theorems': 'c07', 'modes': ['accept', 'refuse'],
    },
    'C13': {
        'files': {'utils/src/format.rs': dict(FMT, roots=['encode_hex', 'decode_hex'])},
        'prelude': ['strings'], 'lemmas': ['hex'], 'theorems': 'c13',
    },
    'C14': {
        'files': {'signature/src/lib.rs': {'roots': ['sign', 'verify'], 'types': True}, 'signature/src/ecdsa.rs': {'structs': ['DalekSigner', 'DalekVerifier']}, 'utils/src/format.rs': FMT,
                  'signature/src/keypair.rs': {'roots': ['generate']}},
        'prelude': ['strings', 'ed25519'], 'lemmas': ['hex', 'sig'], 'theorems': 'c14', 'modes': ['accept', 'refuse'],
    },
    'C02': {
        'files': {'embedding/src/io/steganography.rs': STEG, 'embedding/src/io/mod.rs': {'roots': ['write', 'read']}},
        'prelude': ['floats', 'bitvec', 'ndarray'], 'lemmas': ['bits', 'coeff'], 'theorems': 'c02',
    },
    'C03': {
        'files': {'embedding/src/io/steganography.rs': STEG, 'embedding/src/io/mod.rs': {'roots': ['write']}},
        'prelude': ['floats', 'bitvec', 'ndarray'], 'lemmas': ['bits', 'coeff'], 'theorems': 'c03', 'modes': ['accept', 'refuse'],
    },
    'C15': {
        'files': {'embedding/src/haar/mod.rs': {'roots': ['dwt_2d']}},
        'prelude': ['floats', 'ndarray', 'dwt', 'dwtmod'], 'lemmas': ['dwtnum', 'haar', 'haarnum', 'haarind', 'haarsum'], 'theorems': 'c15',
    },
    'C01': {
        'files': dict(EMBED, **{'embedding/src/lib.rs': {'roots': ['embed', 'extract']}}),
        'prelude': ['floats', 'bitvec', 'ldpc', 'ndarray', 'dwt', 'dwtmod'], 'lemmas': EMBED_LEMMAS, 'theorems': 'c01',
    },
    'C04': {
        'files': dict(EMBED, **{'embedding/src/lib.rs': {'roots': ['embed', 'extract']}}),
        'prelude': ['floats', 'bitvec', 'ldpc', 'ndarray', 'dwt', 'dwtmod'], 'lemmas': EMBED_LEMMAS, 'theorems': 'c04', 'modes': ['accept', 'refuse'],
    },
    'C18': {
        'files': {
            'watermarking/src/process.rs': {'roots': ['watermark_channel', 'authenticate_channel']},
            'watermarking/src/watermark.rs': {'structs': ['Watermark'], 'drop_use': ['image::']},
            'three-bit-quantization/src/lib.rs': TBQ,
            'signature/src/lib.rs': {'types': True}, 'signature/src/ecdsa.rs': {'structs': ['DalekSigner', 'DalekVerifier']}, 'utils/src/format.rs': FMT,
            'utils/src/bytes.rs': {},
            'embedding/src/lib.rs': {'assume': ['embed', 'extract'], 'drop_use': ['.*'], 'use': 'use crate::ndarray::*;', 'why': ' (proved in C01 and C04)'},
            'image-features/src/lib.rs': {'assume': ['calculate_features'], 'drop_use': ['feature::', 'num::', 'zernike::'], 'vxc': 'image-features__value.vxc',
                                          'why': ': its value is a function of its arguments'},
            'image-features/src/feature_types.rs': {'enums': ['FeaturesType']},
        },
        'prelude': ['floats', 'bitvec', 'ldpc', 'ndarray', 'dwt', 'dwtmod', 'strings', 'ed25519', 'image', 'features'],
        'lemmas': EMBED_LEMMAS + ['quant', 'record', 'hex', 'sig', 'channel'], 'theorems': 'c18', 'modes': ['accept', 'refuse'],
    },
}
UNITS['C19'] = dict(UNITS['C18'], theorems='c19', modes=['accept'])
UNITS['C16'] = {
    'files': {
        'watermarking/src/process.rs': {'assume': ['watermark_channel'], 'vxc': 'watermarking__process__fn.vxc', 'drop_use': ['.*'], 'use': 'use crate::image::*;',
                                        'why': ' (proved in C18; that it is a function of its arguments is assumed)'},
        'watermarking/src/lib.rs': {'roots': ['watermark'], 'index': True},
    },
    'prelude': UNITS['C18']['prelude'], 'lemmas': UNITS['C18']['lemmas'] + ['picture'], 'theorems': 'c16',
}
UNITS['C17'] = {
    'files': {
        'image-features/src/lib.rs': {'roots': ['calculate_features'], 'drop_use': ['feature::', 'num::']},
        'image-features/src/feature_types.rs': {'enums': ['FeaturesType']},
        'zernike/src/lib.rs': {'structs': ['ZernikeFeaturesCalculator'], 'drop_use': ['feature::', 'moments::', 'ComplexFloat']},
        'zernike/src/calc.rs': {'drop_use': ['std::f64']},
        'zernike/src/constants.rs': {'consts': ['I'], 'drop_use': ['std::f64'], 'const': {'I': 'pub exec const I: Complex<f64> ensures cmag(I, 0), val(I.re) == 0real, val(I.im) == 1real { VALUE }'}},
        'utils/src/math.rs': {'drop_use': ['puruspe']},
    },
    'prelude': ['floats', 'ndarray', 'complex'], 'lemmas': ['zern', 'whole', 'disk'], 'theorems': 'c17', 'modes': ['accept', 'ideal'], 'rlimit': 60,
}
# the file system becomes an explicit argument of everything that reads or changes it
EFFECTS = {
    'fns': ['process', 'main'],
    'calls': {'process': 'process', 'image::open': 'vx_image_open', 'fs::create_dir_all': 'vx_create_dir_all', 'create_dir_all': 'vx_create_dir_all', 'std::fs::create_dir_all': 'vx_create_dir_all',
              'File::create': 'vx_file_create', 'fs::File::create': 'vx_file_create', 'std::fs::File::create': 'vx_file_create'},
    'methods': {'is_dir': 'vx_is_dir', 'exists': 'vx_exists', 'canonicalize': 'vx_canonicalize', 'write_to': 'vx_write_to', 'save': 'vx_save', 'save_with_format': 'vx_save_with_format'},
}
UNITS['C21'] = {
    'files': {
        'cli/src/main.rs': {'roots': ['process', 'main'], 'drop_use': ['.*'], 'use': 'use crate::watermarking::DWT_LEVELS;', 'effects': EFFECTS},
        'watermarking/src/lib.rs': {'assume': ['watermark'], 'drop_use': ['.*'], 'use': 'use crate::image::*;', 'consts': ['DWT_LEVELS'], 'why': ' (proved in C16)'},
    },
    'prelude': UNITS['C16']['prelude'] + ['fs'], 'lemmas': UNITS['C16']['lemmas'] + ['tool'], 'theorems': 'c21', 'modes': ['accept', 'refuse'],
}
WEB = 'use crate::image::*; use crate::js_sys::*; use crate::watermarking::DWT_LEVELS; use crate::web::image_model::ImageModel; use crate::web::watermarking_process::WatermarkingProcess;'
UNITS['C22'] = {
    'files': {
        'web/src/lib.rs': {'roots': ['get_watermarking_process'], 'drop_use': ['.*'], 'use': WEB},
        'web/src/image_model.rs': {'roots': ['ImageModel::' + x for x in ('new', 'get_width', 'get_height', 'get_data', 'set_width', 'set_height', 'set_data')],
                                   'structs': ['ImageModel'], 'clone': ['ImageModel'], 'drop_use': ['.*'], 'use': 'use crate::js_sys::*;'},
        'web/src/watermarking_process.rs': {'roots': ['WatermarkingProcess::' + x for x in ('new', 'get_source_format', 'get_source', 'get_watermarked', 'set_source_format', 'set_source', 'set_watermarked')],
                                            'structs': ['WatermarkingProcess'], 'drop_use': ['.*'], 'use': 'use crate::web::image_model::ImageModel;'},
        'watermarking/src/lib.rs': UNITS['C21']['files']['watermarking/src/lib.rs'],
    },
    'prelude': UNITS['C21']['prelude'] + ['js'], 'lemmas': UNITS['C21']['lemmas'] + ['web'], 'theorems': 'c22', 'modes': ['accept', 'refuse'],
}
# the crate dwt itself, from the source cargo builds
UNITS['C15D'] = {
    'files': {
        'dwt/src/lib.rs': {'external': True, 'roots': ['transform'], 'enums': ['Operation'], 'drop_use': ['.*'], 'use': 'use crate::dwt::wavelet::Wavelet;'},
        'dwt/src/transform.rs': {'external': True, 'drop_use': ['.*'], 'use': 'use crate::dwt::{Operation, wavelet::{Wavelet, is_haar}};'},
        'dwt/src/wavelet.rs': {'external': True, 'roots': ['Haar::new'], 'structs': ['Wavelet', 'Haar'], 'drop_use': ['.*'],
                               'after_struct': {'Wavelet': 'pub open spec fn is_haar(w: Wavelet) -> bool { w.length == 2 && w.offset == 0 && haar_taps(w.dec_lo@, w.dec_hi@) && haar_taps(w.rec_lo@, w.rec_hi@) }'}},
    },
    'prelude': ['floats', 'dwt', 'rawmem'], 'lemmas': ['dwtsrc'], 'theorems': 'c15d', 'part_of': 'C15',
}
UNITS['C15']['parts'] = ['C15D']
# the decoder of the crate labrador-ldpc
PARAMS = {'T%s_PARAMS' % x: 'pub exec const T%s_PARAMS: CodeParams ensures T%s_PARAMS.n == %d, T%s_PARAMS.k == %d, T%s_PARAMS.punctured_bits == %d, T%s_PARAMS.circulant_size == %d { VALUE }' % (x, x, n, x, k, x, p, x, b)
          for x, n, k, p, b in [('C128', 128, 64, 0, 16), ('C256', 256, 128, 0, 32), ('C512', 512, 256, 0, 64), ('M1280', 1280, 1024, 128, 32), ('M1536', 1536, 1024, 256, 64), ('M2048', 2048, 1024, 512, 128),
                             ('M5120', 5120, 4096, 512, 128), ('M6144', 6144, 4096, 1024, 256), ('M8192', 8192, 4096, 2048, 512)]}
UNITS['C05D'] = {
    'files': {
        'labrador-ldpc/src/codes/mod.rs': {'external': True, 'enums': ['LDPCCode'], 'structs': ['CodeParams'], 'const': PARAMS, 'drop_use': ['.*']},
        'labrador-ldpc/src/decoder.rs': {'external': True, 'roots': ['LDPCCode::decode_bf'], 'drop_use': ['.*'], 'use': 'use crate::labrador_ldpc::codes::LDPCCode;'},
        'labrador-ldpc/src/encoder.rs': {'external': True, 'roots': ['LDPCCode::copy_encode'], 'structs': ['Bytes'], 'drop_use': ['.*'], 'use': 'use crate::labrador_ldpc::codes::LDPCCode;'},
    },
    'prelude': ['ldpcedges'], 'lemmas': ['ldpcsrc', 'ldpcenc'], 'theorems': 'c05d', 'rlimit': 60, 'part_of': 'C05',
}
UNITS['C05']['parts'] = ['C05D']
