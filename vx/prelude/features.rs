// the features of an image, as a function of the image and their number
pub axiom fn ax_features_len(m: Mat<u8>, n: int) requires 1 <= n ensures zernike_features(m, n).len() == n;
pub uninterp spec fn zernike_features(m: Mat<u8>, n: int) -> Seq<f64>;
