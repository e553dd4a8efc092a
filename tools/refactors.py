"""Behaviour-preserving edits of /repo's HEAD: every check has to stay quiet on each (tools/quiet.py)."""
R = []
S, G, M, EN = "src/core/gpsw/scheme.rs", "src/core/gpsw/mod.rs", "src/core/msp.rs", "src/core/engine.rs"
B, BM = "src/core/bilinear_map/bls12_381.rs", "src/core/bilinear_map/mod.rs"
H = "src/interfaces/hybrid_crypto/statics.rs"
FH, FK, FE = ("src/interfaces/ffi/" + x for x in ("hybrid_gpsw_aes.rs", "generate_gpsw_keys.rs", "error.rs"))
PY, PK, PM = ("src/interfaces/pyo3/" + x for x in ("hybrid_gpsw_aes.rs", "generate_gpsw_keys.rs", "mod.rs"))
WE, WD, WK = ("src/interfaces/wasm_bindgen/" + x for x in ("hybrid_gpsw_aes_encryption.rs", "hybrid_gpsw_aes_decryption.rs", "generate_gpsw_keys.rs"))


def r(id, *edits):
    R.append((id, edits))


r("encrypt-helper", (S, """        let e_i = gamma
            .iter()
            .map(|i| {
                let t_i = pub_key.t_i.get(*i as usize).ok_or_else(|| {
                    FormatErr::InternalOperation(format!(
                        "invalid attributes: value {i} has no element in the public key"
                    ))
                })?;
                Ok(self.group.g2_exp(t_i, &s))
            })
            .collect::<Result<Vec<_>, FormatErr>>()?;
""", """        let e_i = self.attribute_components(gamma, pub_key, &s)?;
"""), (S, """    pub fn decrypt(
        &self,
        enc: &GpswCipherText<G>,""", """    fn attribute_components(
        &self,
        gamma: &[u32],
        pub_key: &GpswMasterPublicKey<G>,
        s: &G::Scalar,
    ) -> Result<Vec<G::G2>, FormatErr> {
        let mut components = Vec::with_capacity(gamma.len());
        for i in gamma {
            match pub_key.t_i.get(*i as usize) {
                Some(t_i) => components.push(self.group.g2_exp(t_i, s)),
                None => {
                    return Err(FormatErr::InternalOperation(format!(
                        "invalid attributes: value {i} has no element in the public key"
                    )))
                }
            }
        }
        Ok(components)
    }

    pub fn decrypt(
        &self,
        enc: &GpswCipherText<G>,"""))

r("encrypt-reordered", (S, """        let s = self.group.gen_random_scalar()?;
        let e_prime = self.group.gt_mul(msg, &self.group.gt_exp(&pub_key.y, &s));
        let e_i = gamma
""", """        let s = self.group.gen_random_scalar()?;
        let e_i = gamma
"""), (S, """        let enc_msg = GpswCipherText::<G> {
            gamma: gamma.to_vec(),
            e_prime,
            e_i,
        };
        Ok(enc_msg)""", """        let mask = self.group.gt_exp(&pub_key.y, &s);
        let e_prime = self.group.gt_mul(msg, &mask);
        Ok(GpswCipherText::<G> {
            e_i,
            e_prime,
            gamma: Vec::from(gamma),
        })"""))

r("shares-helper", (S, """            1 => vec![priv_key.y.clone()],
            x => {
                let mut u = self.group.gen_random_scalar_vector(x - 1)?;
                let u_l = u.iter().fold(G::ZERO, std::ops::Add::add);
                //u such that Σ u_i = y
                u.push(priv_key.y.clone() - &u_l);
                u
            }
        };""", """            x => self.shares(x, priv_key.y.clone())?,
        };"""), (S, ("""            1 => vec![G::ZERO],
            x => {
                let mut u = self.group.gen_random_scalar_vector(x - 1)?;
                let u_l = u.iter().fold(G::ZERO, std::ops::Add::add);
                //u such that Σ u_i = 0
                u.push(-u_l);
                u
            }
        };""", 2), """            x => self.shares(x, G::ZERO)?,
        };"""), (S, """    pub fn msg_encode(&self, msg: &[u8]) -> Result<G::Gt, FormatErr> {
        self.group""", """    /// `n` random scalars that add up to `total`
    fn shares(&self, n: usize, total: G::Scalar) -> Result<Vec<G::Scalar>, FormatErr> {
        let mut u = self.group.gen_random_scalar_vector(n - 1)?;
        let mut last = total;
        for share in &u {
            last = last - share;
        }
        u.push(last);
        Ok(u)
    }

    pub fn msg_encode(&self, msg: &[u8]) -> Result<G::Gt, FormatErr> {
        self.group"""))

r("randomization-calls-common", (S, """        // compute Di = g1^(<M_i, u>/-t_rho_i) = (g1^(t_rho_i)^-1)^(<M_i, u>)
        let mut big_d_i = Vec::with_capacity(msp.rows());
        let mut raw_big_d_i = Vec::with_capacity(msp.rows());
        for (i, row) in msp.matrix().iter().enumerate() {
            let prod_scal = Self::prod_scal(row, &u);
            let gt_rho_i = del_key
                .inv_t_i
                .get(msp.get_attr_from_row(i) as usize)
                .ok_or_else(|| {
                    FormatErr::InternalOperation(
                        "attribute has no element in the delegation key".to_string(),
                    )
                })?;
            let di = self.group.g3_exp(gt_rho_i, &prod_scal);
            //randomize key
            if let Some(index) = user_key.msp.get_row_from_attr(msp.get_attr_from_row(i)) {
                let r_di = self.group.g3_mul(&user_key.raw_d_i[index], &di);
                big_d_i.push(r_di.0);
                raw_big_d_i.push(r_di.1);
            } else {
                return Err(FormatErr::InternalOperation(
                    "new attribute is not allowed".to_string(),
                ));
            }
        }
        Ok(GpswDecryptionKey::<G> {
            raw_d_i: raw_big_d_i,
            d_i: big_d_i,
            msp: (*msp).clone(),
        })
    }
""", """        let (d_i, raw_d_i) = self.randomized_components(msp, &u, user_key, del_key)?;
        Ok(GpswDecryptionKey::<G> {
            raw_d_i,
            d_i,
            msp: (*msp).clone(),
        })
    }

    fn randomized_components<T: Clone + Into<G::Scalar>>(
        &self,
        msp: &MonotoneSpanProgram<T>,
        u: &[G::Scalar],
        user_key: &GpswDecryptionKey<G>,
        del_key: &GpswMasterPublicDelegationKey<G>,
    ) -> Result<(Vec<G::G1>, Vec<G::G3>), FormatErr> {
        let mut d_i = Vec::with_capacity(msp.rows());
        let mut raw_d_i = Vec::with_capacity(msp.rows());
        for (i, row) in msp.matrix().iter().enumerate() {
            let attribute = msp.get_attr_from_row(i);
            let inv_t_i = del_key.inv_t_i.get(attribute as usize).ok_or_else(|| {
                FormatErr::InternalOperation(
                    "attribute has no element in the delegation key".to_string(),
                )
            })?;
            let index = user_key.msp.get_row_from_attr(attribute).ok_or_else(|| {
                FormatErr::InternalOperation("new attribute is not allowed".to_string())
            })?;
            let zero = self.group.g3_exp(inv_t_i, &Self::prod_scal(row, u));
            let (d, raw) = self.group.g3_mul(&user_key.raw_d_i[index], &zero);
            d_i.push(d);
            raw_d_i.push(raw);
        }
        Ok((d_i, raw_d_i))
    }
"""), (S, """        // compute Di = g1^(<M_i, u>/-t_rho_i) = (g1^(t_rho_i)^-1)^(<M_i, u>)
        let mut big_d_i = Vec::with_capacity(msp.rows());
        let mut raw_big_d_i = Vec::with_capacity(msp.rows());
        for (i, row) in msp.matrix().iter().enumerate() {
            let prod_scal = Self::prod_scal(row, &u);
            let gt_rho_i = del_key
                .inv_t_i
                .get(msp.get_attr_from_row(i) as usize)
                .ok_or_else(|| {
                    FormatErr::InternalOperation(
                        "attribute has no element in the delegation key".to_string(),
                    )
                })?;
            let di = self.group.g3_exp(gt_rho_i, &prod_scal);
            //randomize key
            if let Some(index) = user_key.msp.get_row_from_attr(msp.get_attr_from_row(i)) {
                let r_di = self.group.g3_mul(&user_key.raw_d_i[index], &di);
                big_d_i.push(r_di.0);
                raw_big_d_i.push(r_di.1);
            } else {
                return Err(FormatErr::InternalOperation(
                    "new attribute is not allowed".to_string(),
                ));
            }
        }
        Ok(GpswDecryptionKey::<G> {
            raw_d_i: raw_big_d_i,
            d_i: big_d_i,
            msp: msp.into(),
        })""", """        let (d_i, raw_d_i) = self.randomized_components(msp, &u, user_key, del_key)?;
        Ok(GpswDecryptionKey::<G> {
            raw_d_i,
            d_i,
            msp: msp.into(),
        })"""))

r("prod-scal-loop", (S, """        v1.iter()
            .zip(v2.iter())
            .map(|(u1, u2)| (*u1).clone().into() * u2)
            .reduce(|a, b| a + &b)
            .unwrap_or(G::ZERO)""", """        let mut sum = G::ZERO;
        for (u1, u2) in v1.iter().zip(v2) {
            let term = u1.clone().into() * u2;
            sum = sum + &term;
        }
        sum"""))

r("decrypt-triples", (S, """        let mut matrix = Vec::new();
        let mut d_i = Vec::new();
        let mut e_i = Vec::new();
        for (i, attr) in enc.gamma.iter().enumerate() {
            if let Some(row) = key.msp.get_row_from_attr(*attr) {
                matrix.push(key.msp.get_row(row).clone());
                d_i.push(&key.d_i[row]);
                e_i.push(&enc.e_i[i]);
            }
        }
        // find the α_i coefficients if any
        let a_i = Self::span_coefs(&mut matrix)?;
        // keep the α_i != 0 and the corresponding (e_i, d_i)
        a_i.map_or(Ok(None), |a_i| {
            let d_i = d_i
                .iter()
                .enumerate()
                .filter_map(|(i, di)| if a_i[i] == G::ZERO { None } else { Some(*di) })
                .collect::<Vec<_>>();
            let e_i = e_i
                .iter()
                .enumerate()
                .filter_map(|(i, ei)| if a_i[i] == G::ZERO { None } else { Some(*ei) })
                .collect::<Vec<_>>();
            let a_i = a_i.iter().filter(|ai| **ai != G::ZERO).collect::<Vec<_>>();
            // compute Π e(d_i,e_i)^α_i
            let prod = self
                .group
                .prod_gt_exp(d_i.as_slice(), e_i.as_slice(), a_i.as_slice());
            // Recover the msg
            Ok(Some(self.group.gt_div(&enc.e_prime, &prod)))
        })""", """        let mut matrix = Vec::with_capacity(enc.gamma.len());
        let mut pairs = Vec::with_capacity(enc.gamma.len());
        for (attr, e_i) in enc.gamma.iter().zip(enc.e_i.iter()) {
            let row = match key.msp.get_row_from_attr(*attr) {
                Some(row) => row,
                None => continue,
            };
            pairs.push((&key.d_i[row], e_i));
            matrix.push(key.msp.get_row(row).to_vec());
        }
        // find the α_i coefficients if any
        let coefs = match Self::span_coefs(&mut matrix)? {
            Some(coefs) => coefs,
            None => return Ok(None),
        };
        // keep the α_i != 0 and the corresponding (e_i, d_i)
        let mut d_i = Vec::new();
        let mut e_i = Vec::new();
        let mut a_i = Vec::new();
        for (coef, (d, e)) in coefs.iter().zip(pairs) {
            if *coef == G::ZERO {
                continue;
            }
            d_i.push(d);
            e_i.push(e);
            a_i.push(coef);
        }
        // compute Π e(d_i,e_i)^α_i
        let prod = self.group.prod_gt_exp(&d_i, &e_i, &a_i);
        Ok(Some(self.group.gt_div(&enc.e_prime, &prod)))"""))

r("decrypt-match", (S, "        a_i.map_or(Ok(None), |a_i| {\n", "        Ok(match a_i {\n            None => None,\n            Some(a_i) => {\n"),
  (S, """            // Recover the msg
            Ok(Some(self.group.gt_div(&enc.e_prime, &prod)))
        })""", """            // Recover the msg
            Some(self.group.gt_div(&enc.e_prime, &prod))
        }})"""))

r("master-key-loop", (S, """        let t_i = self.group.gen_random_scalar_vector(size)?;
        let y = self.group.gen_random_scalar()?;
        let big_y = self.group.gt_gen_exp(&y);
        let big_ti = self.group.g2_gen_exp_vector(&t_i);
        let inv_big_ti_g1 = self
            .group
            .g3_gen_exp_vector(&(t_i.iter().map(|ti| G::ONE / ti).collect::<Vec<_>>()));
""", """        let y = self.group.gen_random_scalar()?;
        let t_i = self.group.gen_random_scalar_vector(size)?;
        let big_y = self.group.gt_gen_exp(&y);
        let mut big_ti = Vec::with_capacity(t_i.len());
        let mut inv_big_ti_g1 = Vec::with_capacity(t_i.len());
        for ti in &t_i {
            big_ti.push(self.group.g2_gen_exp(ti));
            let inverse = G::ONE / ti;
            inv_big_ti_g1.push(self.group.g3_gen_exp(&inverse));
        }
"""))

r("master-key-one-vector", (S, """        let t_i = self.group.gen_random_scalar_vector(size)?;
        let y = self.group.gen_random_scalar()?;
        let big_y""", """        // one more for the master secret
        let mut t_i = self.group.gen_random_scalar_vector(size + 1)?;
        let y = t_i.pop().ok_or_else(|| FormatErr::InternalOperation("no master secret".to_string()))?;
        let big_y"""))

r("keygen-iterator", (S, """        let mut big_d_i = Vec::with_capacity(msp.rows());
        let mut big_raw_d_i = Vec::with_capacity(msp.rows());
        for (i, row) in msp.matrix().iter().enumerate() {
            let prod_scal = Self::prod_scal(row, &u);
            let attribute = msp.get_attr_from_row(i) as usize;
            if attribute >= priv_key.t_i.len() {
                return Err(FormatErr::InternalOperation(
                    "Monotone Span Program is invalid: msp-row larger than private-key-t_i"
                        .to_string(),
                ));
            }
            let t_rho_i = &priv_key.t_i[attribute];
            let di = self.group.g1_gen_exp(&(prod_scal / t_rho_i));
            big_d_i.push(di.0);
            big_raw_d_i.push(di.1)
        }
""", """        let elements = msp
            .matrix()
            .iter()
            .enumerate()
            .map(|(i, row)| {
                let t_rho_i = priv_key
                    .t_i
                    .get(msp.get_attr_from_row(i) as usize)
                    .ok_or_else(|| {
                        FormatErr::InternalOperation(
                            "Monotone Span Program is invalid: msp-row larger than private-key-t_i"
                                .to_string(),
                        )
                    })?;
                Ok(self.group.g1_gen_exp(&(Self::prod_scal(row, &u) / t_rho_i)))
            })
            .collect::<Result<Vec<_>, FormatErr>>()?;
        let (big_d_i, big_raw_d_i): (Vec<_>, Vec<_>) = elements.into_iter().unzip();
"""))

r("solver-helpers", (S, """                // eliminate
                for r in curr_row + 1..nb_row {
                    let index = (matrix[curr_col][r]).clone();
                    if index != G::ZERO {
                        for col in matrix.iter_mut().skip(curr_col) {
                            // TODO: avoid index.clone if possible
                            col[r] = col[r].clone() - &(index.clone() * &(col[curr_row]))
                        }
                    }
                }
                // reverse side
                for r in 0..curr_row {
                    let index = (matrix[curr_col][r]).clone();
                    if index != G::ZERO {
                        for col in matrix.iter_mut().skip(curr_col) {
                            // TODO: avoid index.clone if possible
                            col[r] = col[r].clone() - &(index.clone() * &(col[curr_row]))
                        }
                    }
                }
""", """                // eliminate on both sides of the pivot
                for r in 0..nb_row {
                    if r != curr_row {
                        Self::eliminate(matrix, curr_col, curr_row, r);
                    }
                }
"""), (S, """    // Compute a linear combination of row which span to 1,⋯,1 vector
""", """    fn eliminate(matrix: &mut [Vec<G::Scalar>], curr_col: usize, curr_row: usize, r: usize) {
        let factor = matrix[curr_col][r].clone();
        if factor == G::ZERO {
            return;
        }
        for col in &mut matrix[curr_col..] {
            col[r] = col[r].clone() - &(factor.clone() * &col[curr_row]);
        }
    }

    // Compute a linear combination of row which span to 1,⋯,1 vector
"""))

r("vec-decode-loop", (G, """        let mut res = Self::with_capacity(len);
        res.push(res0);
        // deserialize
        for i in 1..len {
            let beg = i * res0_len_bytes;
            res.push(T::try_from_bytes(&bytes[4 + beg..])?)
        }
        Ok(res)""", """        let mut res = Self::with_capacity(len);
        res.push(res0);
        // deserialize
        let mut offset = 4 + res0_len_bytes;
        while res.len() < len {
            res.push(T::try_from_bytes(&bytes[offset..])?);
            offset += res0_len_bytes;
        }
        Ok(res)"""))

r("vec-decode-collect", (G, """        let mut res = Self::with_capacity(len);
        res.push(res0);
        // deserialize
        for i in 1..len {
            let beg = i * res0_len_bytes;
            res.push(T::try_from_bytes(&bytes[4 + beg..])?)
        }
        Ok(res)""", """        (0..len)
            .map(|i| T::try_from_bytes(&bytes[4 + i * res0_len_bytes..]))
            .collect()"""))

r("vec-encode-iter", (G, """        let mut bytes = Vec::new();
        let len = u32::try_from(self.len())?.to_be_bytes();
        bytes.extend_from_slice(&len);
        for val in self.iter() {
            bytes.append(&mut val.try_into_bytes()?)
        }
        Ok(bytes)""", """        let mut bytes = Vec::with_capacity(self.len_bytes());
        bytes.extend(u32::try_from(self.len())?.to_be_bytes());
        for val in self {
            let element = val.try_into_bytes()?;
            bytes.extend_from_slice(&element);
        }
        Ok(bytes)"""))

r("u32-decode-get", (G, """        if bytes.len() < 4 {
            return Err(FormatErr::Deserialization(
                "cannot deserialize u32 element since input bytes size is less than 4 bytes"
                    .to_string(),
            ));
        }
        Ok(Self::from_be_bytes(bytes[0..4].try_into()?))""", """        let first = bytes.get(..4).ok_or_else(|| {
            FormatErr::Deserialization(
                "cannot deserialize u32 element since input bytes size is less than 4 bytes"
                    .to_string(),
            )
        })?;
        Ok(Self::from_be_bytes(first.try_into()?))"""))

r("msp-decode-nested", (M, """        let mut matrix = Vec::with_capacity(nb_row);
        let mut row = Vec::with_capacity(nb_col);
        row.push(first);
        for c in 1..nb_col {
            let index = 8 + (4 * nb_row) + (c * row[0].len_bytes());
            row.push(I::try_from_bytes(&bytes[index..])?);
        }
        matrix.push(row);
        for r in 1..nb_row {
            let mut row = Vec::with_capacity(nb_col);
            for c in 0..nb_col {
                let index = 8 + (4 * nb_row) + (((r * nb_col) + c) * matrix[0][0].len_bytes());
                row.push(I::try_from_bytes(&bytes[index..])?);
            }
            matrix.push(row);
        }
""", """        let size = first.len_bytes();
        let start = 8 + (4 * nb_row);
        let mut matrix = Vec::with_capacity(nb_row);
        for r in 0..nb_row {
            let mut row = Vec::with_capacity(nb_col);
            for c in 0..nb_col {
                row.push(I::try_from_bytes(&bytes[start + (r * nb_col + c) * size..])?);
            }
            matrix.push(row);
        }
"""))

r("msp-encode-extend", (M, """        res.append(&mut u32::try_from(self.nb_row)?.to_be_bytes().to_vec());
        res.append(&mut u32::try_from(self.nb_col)?.to_be_bytes().to_vec());
        for u in &self.row_to_attr {
            res.append(&mut (*u).to_be_bytes().to_vec())
        }
        for r in &self.matrix {
            for c in r {
                res.append(&mut c.try_into_bytes()?);
            }
        }
""", """        let rows = u32::try_from(self.nb_row)?;
        let cols = u32::try_from(self.nb_col)?;
        for n in [rows, cols].iter().chain(self.row_to_attr.iter()) {
            res.extend_from_slice(&n.to_be_bytes());
        }
        for c in self.matrix.iter().flatten() {
            res.extend(c.try_into_bytes()?);
        }
"""))

r("msp-header-helper", (M, """        let nb_row: [u8; 4] = bytes[0..4].try_into()?;
        let nb_row = u32::from_be_bytes(nb_row) as usize;
        let nb_col: [u8; 4] = bytes[4..8].try_into()?;
        let nb_col = u32::from_be_bytes(nb_col) as usize;
""", """        let nb_row = u32::try_from_bytes(&bytes[..4])? as usize;
        let nb_col = u32::try_from_bytes(&bytes[4..])? as usize;
"""))

r("to-msp-helper", (M, """                let mut vec = row.1.clone();
                vec.resize(counter, 0);
                for i in 1..vec.len() {
                    vec[i] += vec[0];
                }
                msp_matrix.push(vec);
""", """                msp_matrix.push(Self::change_basis(row.1.clone(), counter));
"""), (M, """    // Very basic parser, the expression must be well formed
""", """    fn change_basis(mut vec: Vec<i32>, cols: usize) -> Vec<i32> {
        vec.resize(cols, 0);
        let first = vec[0];
        for x in vec.iter_mut().skip(1) {
            *x += first;
        }
        vec
    }

    // Very basic parser, the expression must be well formed
"""))

r("to-msp-owned", (M, """                Self::Or(n1, n2) => {
                    queue.push_back((n1, vector.clone()));
                    queue.push_back((n2, vector.clone()));
                }
                leaf @ Self::Leaf(_) => {
                    matrix.push((leaf, vector.clone()));
                }""", """                Self::Or(n1, n2) => {
                    queue.push_back((n1, vector.clone()));
                    queue.push_back((n2, vector));
                }
                leaf @ Self::Leaf(_) => matrix.push((leaf, vector)),"""))

r("to-msp-contains", (M, """                msp_matrix.push(vec);
                msp_vec.push(*attr);
                if msp_map.insert(*attr, i).is_some() {
                    return Err(FormatErr::Deserialization(
                        "error deserializing MSP, leaf already inserted".to_string(),
                    ));
                }
            } else {""", """                if msp_map.contains_key(attr) {
                    return Err(FormatErr::Deserialization(
                        "error deserializing MSP, leaf already inserted".to_string(),
                    ));
                }
                msp_map.insert(*attr, i);
                msp_vec.push(*attr);
                msp_matrix.push(vec);
            } else {"""))

r("node-early-returns", (M, """    if let Some((list, hierarchical)) = policy.axes.get(&attr.axis) {
        if list.contains(&attr.name) {
            let res = list
                .iter()
                .position(|r| r == &attr.name)
                .ok_or_else(|| FormatErr::ExpectedAttribute(attr.name.clone(), list.clone()))?;
            let mut val = policy
                .attribute_to_int
                .get(attr)
                .ok_or_else(|| FormatErr::AttributeNotFound(format!("{attr:?}")))?
                .iter()
                .map(|attr| Node::Leaf(*attr))
                .reduce(std::ops::BitOr::bitor)
                .ok_or_else(|| FormatErr::AttributeNotFound(format!("{attr:?}")))?;
            if *hierarchical {
                for (at, elem) in list.iter().enumerate() {
                    if at >= res {
                        break;
                    }
                    val = val
                        | policy
                            .attribute_to_int
                            .get(&(attr.axis.clone(), elem.clone()).into())
                            .ok_or_else(|| FormatErr::AttributeNotFound(format!("{attr:?}")))?
                            .iter()
                            .map(|attr| Node::Leaf(*attr))
                            .reduce(std::ops::BitOr::bitor)
                            .ok_or_else(|| FormatErr::AttributeNotFound(format!("{attr:?}")))?;
                }
            }

            Ok(val)
        } else {
            Err(FormatErr::MissingAttribute {
                item: Some(attr.name.clone()),
                axis_name: Some(attr.axis.clone()),
            })
        }
    } else {
        Err(FormatErr::MissingAxis(attr.axis.clone()))
    }
}""", """    let (list, hierarchical) = policy
        .axes
        .get(&attr.axis)
        .ok_or_else(|| FormatErr::MissingAxis(attr.axis.clone()))?;
    let rank = match list.iter().position(|name| *name == attr.name) {
        Some(rank) => rank,
        None => {
            return Err(FormatErr::MissingAttribute {
                item: Some(attr.name.clone()),
                axis_name: Some(attr.axis.clone()),
            })
        }
    };
    let mut node = values_to_node(policy, attr)?;
    if *hierarchical {
        for name in &list[..rank] {
            let lower = Attribute::new(&attr.axis, name);
            node = node | values_to_node(policy, &lower)?;
        }
    }
    Ok(node)
}

// The alternative of all values of an attribute
fn values_to_node(policy: &Policy, attr: &Attribute) -> Result<Node, FormatErr> {
    policy
        .attribute_to_int
        .get(attr)
        .and_then(|values| values.iter().copied().map(Node::Leaf).reduce(BitOr::bitor))
        .ok_or_else(|| FormatErr::AttributeNotFound(format!("{attr:?}")))
}"""))

r("node-take", (M, """                for (at, elem) in list.iter().enumerate() {
                    if at >= res {
                        break;
                    }
                    val = val""", """                for elem in list.iter().take(res) {
                    val = val"""))

r("policy-to-msp-match", (M, """    if let AccessPolicy::All = axis {
        policy
            .attribute_to_int
            .values()
            .flat_map(BinaryHeap::iter)
            .map(|attr| Node::Leaf(*attr))
            .reduce(BitOr::bitor)
            .ok_or(FormatErr::MissingAttribute {
                item: None,
                axis_name: None,
            })?
            .to_msp()
    } else {
        let formula = policy_to_formula(policy, axis)?;
        formula.to_msp()
    }""", """    let formula = match axis {
        AccessPolicy::All => {
            let mut all: Option<Node> = None;
            for values in policy.attribute_to_int.values() {
                for value in values {
                    let leaf = Node::Leaf(*value);
                    all = Some(match all {
                        Some(node) => node | leaf,
                        None => leaf,
                    });
                }
            }
            all.ok_or(FormatErr::MissingAttribute {
                item: None,
                axis_name: None,
            })?
        }
        _ => policy_to_formula(policy, axis)?,
    };
    formula.to_msp()"""))

r("rename-private", (M, ("policy_to_formula", 6), "formula_of"), (M, ("policy_to_node", 2), "node_of"), (S, ("prod_scal", 10), "inner_product"))

r("scalar-get", (B, """        if bytes.len() < 32 {
            return Err(FormatErr::InvalidSize(format!(
                "Invalid scalar element (size {}, expected size at least: {} bytes long), unable \\
                 to deserialize this scalar element.",
                bytes.len(),
                32
            )));
        }

        let inner = cosmian_bls12_381::Scalar::from_bytes(bytes[0..32].try_into()?);
        if inner.is_some().into() {
            Ok(Self(inner.unwrap()))
        } else {
            Err(FormatErr::Deserialization(
                "Failed deserializing scalar".to_string(),
            ))
        }""", """        let first = bytes.get(..32).ok_or_else(|| {
            FormatErr::InvalidSize(format!(
                "Invalid scalar element (size {}, expected size at least: {} bytes long), unable \\
                 to deserialize this scalar element.",
                bytes.len(),
                32
            ))
        })?;
        Option::from(cosmian_bls12_381::Scalar::from_bytes(first.try_into()?))
            .map(Self)
            .ok_or_else(|| FormatErr::Deserialization("Failed deserializing scalar".to_string()))"""))

r("gt-option", (B, """        let res = Self::from_compressed(&bytes[0..288].try_into()?);
        if res.is_none().into() {
            Err(FormatErr::Deserialization(
                "Error deserializing Gt".to_string(),
            ))
        } else {
            Ok(res.unwrap())
        }""", """        let mut element = [0_u8; 288];
        element.copy_from_slice(&bytes[..288]);
        let element: Option<Self> = Self::from_compressed(&element).into();
        element.ok_or_else(|| FormatErr::Deserialization("Error deserializing Gt".to_string()))"""))

r("pairing-loop", (B, """        //compute e_i^α_i
        let e_i_a_i = e_i
            .iter()
            .zip(a_i.iter())
            .map(|(ei, ai)| G1Affine::from((*ei) * ai.0))
            .collect::<Vec<_>>();
        // compute Π e(d_i,e_i^α_i)= Π e(d_i,e_i)^α_i
        let terms = e_i_a_i.iter().zip(d_i.iter().copied()).collect::<Vec<_>>();
        multi_miller_loop(&terms).final_exponentiation()""", """        //compute e_i^α_i
        let mut powers = Vec::with_capacity(e_i.len());
        for (ei, ai) in e_i.iter().zip(a_i) {
            powers.push(self.g2_exp(ei, ai));
        }
        // compute Π e(d_i,e_i^α_i)= Π e(d_i,e_i)^α_i
        let mut terms = Vec::with_capacity(powers.len());
        for (power, di) in powers.iter().zip(d_i) {
            terms.push((power, *di));
        }
        multi_miller_loop(&terms).final_exponentiation()"""))

r("g1-exp-via-g3", (B, """        let res = G2Affine::from(G2Projective::generator() * x.0);
        (G2Prepared::from(res), res)
    }

    fn g3_gen_exp""", """        let res = self.g3_gen_exp(x);
        (Self::g3_to_g1(&res), res)
    }

    fn g3_gen_exp"""))

r("msg-array", (B, """        let mut vec = msg.to_vec();
        vec.resize(32, 0);
        let scl = cosmian_bls12_381::Scalar::from_bytes(&(vec.as_slice().try_into()?));
        if scl.is_none().into() {
            return Err(FormatErr::ConversionFailed);
        }
        Ok(Scalar(scl.unwrap()))""", """        let mut padded = [0_u8; 32];
        padded[..msg.len()].copy_from_slice(msg);
        let scalar: Option<_> = cosmian_bls12_381::Scalar::from_bytes(&padded).into();
        scalar.map(Scalar).ok_or(FormatErr::ConversionFailed)"""))

r("random-vector-loop", (BM, """        let mut rng = rand_hc::Hc128Rng::from_entropy();
        std::iter::repeat_with(|| self.gen_rand_scalar_inner(&mut rng))
            .take(size)
            .collect()""", """        let mut rng = rand_hc::Hc128Rng::from_entropy();
        let mut scalars = Vec::with_capacity(size);
        for _ in 0..size {
            scalars.push(self.gen_rand_scalar_inner(&mut rng)?);
        }
        Ok(scalars)"""))

r("rng-helper", (BM, """    fn gen_random_scalar(&self) -> Result<Self::Scalar, FormatErr> {
        let mut rng = rand_hc::Hc128Rng::from_entropy();
        self.gen_rand_scalar_inner(&mut rng)
    }

    fn gen_random_scalar_vector(&self, size: usize) -> Result<Vec<Self::Scalar>, FormatErr> {
        let mut rng = rand_hc::Hc128Rng::from_entropy();
        std""", """    fn gen_random_scalar(&self) -> Result<Self::Scalar, FormatErr> {
        self.gen_rand_scalar_inner(&mut new_rng())
    }

    fn gen_random_scalar_vector(&self, size: usize) -> Result<Vec<Self::Scalar>, FormatErr> {
        let mut rng = new_rng();
        std"""), (BM, """        let mut rng = rand_hc::Hc128Rng::from_entropy();
        self.gen_rand_gt_inner(&mut rng)
    }
}""", """        let mut rng = new_rng();
        self.gen_rand_gt_inner(&mut rng)
    }
}

fn new_rng() -> rand_hc::Hc128Rng {
    rand_hc::Hc128Rng::from_entropy()
}"""))

r("engine-hash-helper", (EN, """        let sym_key = Shake256::default()
            .chain(random.try_into_bytes()?)
            .finalize_xof()
            .read_boxed(symmetric_key_len)
            .into_vec();
        Ok((sym_key, enc_sym_key))""", """        let sym_key = Self::symmetric_key(&random, symmetric_key_len)?;
        Ok((sym_key, enc_sym_key))"""), (EN, """        // Use a hash of the plaintext bytes as the symmetric key
        Ok(Shake256::default()
            .chain(random.try_into_bytes()?)
            .finalize_xof()
            .read_boxed(symmetric_key_len)
            .into_vec())
    }
""", """        Self::symmetric_key(&random, symmetric_key_len)
    }

    // Use a hash of the plaintext bytes as the symmetric key
    fn symmetric_key(random: &S::PlainText, len: usize) -> Result<Vec<u8>, FormatErr> {
        let mut hasher = Shake256::default();
        hasher.update(&random.try_into_bytes()?);
        let mut key = vec![0; len];
        hasher.finalize_xof().read(&mut key);
        Ok(key)
    }
"""))

r("header-sized-helper", (H, """    let mut header_bytes = u32_len(&encrypted_sk)?.to_vec();
    // ...bytes
    header_bytes.extend(&encrypted_sk);
    if let Some(meta) = meta_data {""", """    let mut header_bytes = Vec::new();
    push_sized(&mut header_bytes, &encrypted_sk)?;
    if let Some(meta) = meta_data {"""), (H, """        // ... size
        header_bytes.extend(u32_len(&encrypted_metadata)?);
        // ... bytes
        header_bytes.extend(encrypted_metadata);
""", """        push_sized(&mut header_bytes, &encrypted_metadata)?;
"""), (H, """// Attempt getting the length of this slice as an u32""", """// The length of the bytes, then the bytes
fn push_sized(to: &mut Vec<u8>, bytes: &[u8]) -> Result<(), FormatErr> {
    to.extend_from_slice(&u32_len(bytes)?);
    to.extend_from_slice(bytes);
    Ok(())
}

// Attempt getting the length of this slice as an u32"""))

r("header-metadata-helper", (H, """    let meta_data = if scanner.has_more() {
        // Nonce
        let nonce = S::Nonce::try_from_bytes(
            scanner
                .next(S::Nonce::LENGTH)
                .map_err(|e| FormatErr::CryptoError(e.to_string()))?,
        )?;

        // encrypted metadata
        let encrypted_metadata_size = scanner
            .read_u32()
            .map_err(|e| FormatErr::CryptoError(e.to_string()))?
            as usize;

        // UID
        let encrypted_metadata = scanner
            .next(encrypted_metadata_size)
            .map_err(|e| FormatErr::CryptoError(e.to_string()))?;
        Metadata::try_from_bytes(&S::decrypt(
            &symmetric_key,
            encrypted_metadata,
            &nonce,
            None,
        )?)
        .map_err(|e| FormatErr::CryptoError(e.to_string()))?
    } else {
        Metadata::default()
    };
""", """    let meta_data = if scanner.has_more() {
        decrypt_metadata::<S>(&symmetric_key, &mut scanner)?
    } else {
        Metadata::default()
    };
"""), (H, """/// The overhead due to symmetric encryption when encrypting a block.
""", """fn decrypt_metadata<S: SymmetricCrypto>(
    symmetric_key: &S::Key,
    scanner: &mut BytesScanner,
) -> Result<Metadata, FormatErr> {
    let nonce = S::Nonce::try_from_bytes(scanner.next(S::Nonce::LENGTH).map_err(|e| FormatErr::CryptoError(e.to_string()))?)?;
    let size = scanner.read_u32().map_err(|e| FormatErr::CryptoError(e.to_string()))?;
    let encrypted = scanner.next(size as usize).map_err(|e| FormatErr::CryptoError(e.to_string()))?;
    let clear = S::decrypt(symmetric_key, encrypted, &nonce, None)?;
    Metadata::try_from_bytes(&clear).map_err(|e| FormatErr::CryptoError(e.to_string()))
}

/// The overhead due to symmetric encryption when encrypting a block.
"""))

r("block-checks-merged", (H, """    if plaintext.is_empty() {
        return Err(FormatErr::EmptyPlaintext);
    }
    if plaintext.len() > MAX_CLEAR_TEXT_SIZE {
        return Err(FormatErr::InvalidSize(format!(
            "The data to encrypt is too large: {} bytes, max size: {} ",
            plaintext.len(),
            MAX_CLEAR_TEXT_SIZE
        )));
    }
    let mut block""", """    match plaintext.len() {
        0 => return Err(FormatErr::EmptyPlaintext),
        len if len > MAX_CLEAR_TEXT_SIZE => {
            return Err(FormatErr::InvalidSize(format!(
                "The data to encrypt is too large: {len} bytes, max size: {MAX_CLEAR_TEXT_SIZE} "
            )))
        }
        _ => {}
    }
    let mut block"""))

r("clear-header-split", (H, """        // Then split header between `symmetric_key` and `meta_data`
        let symmetric_key_bytes: Vec<u8> = header[4..(4 + symmetric_key_len)].try_into()?;
        let meta_data_bytes: Vec<u8> = header[(4 + symmetric_key_len)..].try_into()?;

        Ok(Self {
            symmetric_key: S::Key::try_from_bytes(&symmetric_key_bytes)?,
            meta_data: Metadata::try_from_bytes(&meta_data_bytes)?,
        })""", """        // Then split header between `symmetric_key` and `meta_data`
        let (symmetric_key_bytes, meta_data_bytes) = header[4..].split_at(symmetric_key_len);
        let symmetric_key = S::Key::try_from_bytes(symmetric_key_bytes)?;
        let meta_data = Metadata::try_from_bytes(meta_data_bytes)?;
        Ok(Self {
            symmetric_key,
            meta_data,
        })"""))

OUT1 = """    let allocated = *symmetric_key_len;
    let len = encrypted_header.symmetric_key.as_bytes().len();
    *symmetric_key_len = len as c_int;
    if (allocated as usize) < len {
        ffi_bail!(
            "The pre-allocated symmetric key buffer is too small; need {} bytes",
            len
        );
    }
    std::slice::from_raw_parts_mut(symmetric_key_ptr.cast::<u8>(), len)
        .copy_from_slice(encrypted_header.symmetric_key.as_bytes());

    let allocated = *header_bytes_len;
    let len = encrypted_header.encrypted_header_bytes.len();
    *header_bytes_len = len as c_int;
    if (allocated as usize) < len {
        ffi_bail!(
            "The pre-allocated symmetric key buffer is too small; need {} bytes",
            len
        );
    }
    std::slice::from_raw_parts_mut(header_bytes_ptr.cast::<u8>(), len)
        .copy_from_slice(&encrypted_header.encrypted_header_bytes);
"""
r("ffi-output-helper", (FH, (OUT1, 2), """    if write_output(
        symmetric_key_ptr,
        symmetric_key_len,
        encrypted_header.symmetric_key.as_bytes(),
    ) != 0
    {
        return 1;
    }
    if write_output(
        header_bytes_ptr,
        header_bytes_len,
        &encrypted_header.encrypted_header_bytes,
    ) != 0
    {
        return 1;
    }
"""), (FH, """// A static cache of the Encryption Caches
""", """/// Copies bytes to a buffer of the caller
unsafe fn write_output(to: *mut c_char, capacity: *mut c_int, bytes: &[u8]) -> c_int {
    let allocated = *capacity as usize;
    *capacity = bytes.len() as c_int;
    if bytes.len() > allocated {
        ffi_bail!(
            "The pre-allocated symmetric key buffer is too small; need {} bytes",
            bytes.len()
        );
    }
    std::ptr::copy_nonoverlapping(bytes.as_ptr(), to.cast::<u8>(), bytes.len());
    0
}

// A static cache of the Encryption Caches
"""))

INP = """    // UID
    let uid = if uid_ptr.is_null() || uid_len <= 0 {
        vec![]
    } else {
        std::slice::from_raw_parts(uid_ptr.cast::<u8>(), uid_len as usize).to_vec()
    };

    // additional data
    let additional_data = if additional_data_ptr.is_null() || additional_data_len <= 0 {
        None
    } else {
        Some(
            std::slice::from_raw_parts(
                additional_data_ptr.cast::<u8>(),
                additional_data_len as usize,
            )
            .to_vec(),
        )
    };

    let meta_data = Metadata {
        uid,
        additional_data,
    };
"""
r("ffi-optional-input", (FH, (INP, 2), """    let meta_data = Metadata {
        uid: optional_bytes(uid_ptr, uid_len).unwrap_or_default(),
        additional_data: optional_bytes(additional_data_ptr, additional_data_len),
    };
"""), (FH, """// A static cache of the Encryption Caches
""", """/// The bytes given by the caller, if any
unsafe fn optional_bytes(ptr: *const c_char, len: c_int) -> Option<Vec<u8>> {
    if !ptr.is_null() && len > 0 {
        let bytes = std::slice::from_raw_parts(ptr.cast::<u8>(), len as usize);
        return Some(bytes.to_vec());
    }
    None
}

// A static cache of the Encryption Caches
"""))

r("ffi-destroy-short", (FH, """    let mut map = ENCRYPTION_CACHE_MAP
        .write()
        .expect("A write mutex on encryption cache failed");
    map.remove(&cache_handle);
    0""", """    ENCRYPTION_CACHE_MAP
        .write()
        .expect("A write mutex on encryption cache failed")
        .remove(&cache_handle);
    0"""))

r("ffi-create-scope", (FH, """    let id = NEXT_ENCRYPTION_CACHE_ID.fetch_add(1, Ordering::Acquire);
    let mut map = ENCRYPTION_CACHE_MAP
        .write()
        .expect("A write mutex on encryption cache failed");
    map.insert(id, cache);
    *cache_handle = id;
    0""", """    let id = NEXT_ENCRYPTION_CACHE_ID.fetch_add(1, Ordering::SeqCst);
    {
        let mut map = ENCRYPTION_CACHE_MAP
            .write()
            .expect("A write mutex on encryption cache failed");
        map.insert(id, cache);
    }
    cache_handle.write(id);
    0"""))

r("ffi-create-clone-free", (FH, """    let policy = match CStr::from_ptr(policy_ptr).to_str() {
        Ok(msg) => msg.to_owned(),
        Err(_e) => {
            ffi_bail!("Hybrid Cipher: invalid Policy".to_owned(),);
        }
    };
    let policy: Policy = match serde_json::from_str(&policy) {
        Ok(p) => p,
        Err(e) => {
            ffi_bail!(format!("Hybrid Cipher: invalid Policy: {e:?}"));
        }
    };
""", """    let policy = if let Ok(text) = CStr::from_ptr(policy_ptr).to_str() {
        text
    } else {
        ffi_bail!("Hybrid Cipher: invalid Policy");
    };
    let policy = match serde_json::from_str::<Policy>(policy) {
        Err(e) => {
            ffi_bail!(format!("Hybrid Cipher: invalid Policy: {e:?}"));
        }
        Ok(policy) => policy,
    };
"""))

r("ffi-cache-early-return", (FH, """    let cache = if let Some(cache) = map.get(&cache_handle) {
        cache
    } else {
        set_last_error(FfiError::Generic(format!(
            "Hybrid Cipher: no encryption cache with handle: {cache_handle}"
        )));
        return 1;
    };
""", """    let cache = match map.get(&cache_handle) {
        None => {
            ffi_bail!(format!(
                "Hybrid Cipher: no encryption cache with handle: {cache_handle}"
            ));
        }
        Some(cache) => cache,
    };
"""))

r("ffi-lengths-first", (FH, """    ffi_not_null!(cache_handle, "Cache handle pointer should not be null");
    ffi_not_null!(
        user_decryption_key_ptr,
        "User decryption key pointer should not be null"
    );
    if user_decryption_key_len <= 0 {
        ffi_bail!("The user decryption key should not be empty");
    }
""", """    if user_decryption_key_len < 1 {
        ffi_bail!("The user decryption key should not be empty");
    }
    ffi_not_null!(
        user_decryption_key_ptr,
        "User decryption key pointer should not be null"
    );
    ffi_not_null!(cache_handle, "Cache handle pointer should not be null");
"""))

r("ffi-rotate-try-for-each", (FK, """    for attr in &attributes {
        ffi_unwrap!(policy.rotate(attr));
    }""", """    ffi_unwrap!(attributes.iter().try_for_each(|attr| policy.rotate(attr)));"""))

r("ffi-last-error-direct", (FE, """    let actual_len = std::cmp::min((*error_len - 1) as usize, bytes.len());

    // create a 0 initialized vector with the message
    let mut result = vec![0; *error_len as usize];
    {
        let (left, _right) = result.split_at_mut(actual_len);
        left.copy_from_slice(&bytes[0..actual_len]);
    }

    //copy the result in the OUT array
    std::slice::from_raw_parts_mut(error_msg_ptr.cast::<u8>(), *error_len as usize)
        .copy_from_slice(&result);
""", """    let capacity = *error_len as usize;
    let actual_len = bytes.len().min(capacity - 1);

    // the message, then zeroes
    let out = std::slice::from_raw_parts_mut(error_msg_ptr.cast::<u8>(), capacity);
    out[..actual_len].copy_from_slice(&bytes[..actual_len]);
    out[actual_len..].fill(0);
"""))

r("python-sizes", (PY, """    let mut encrypted = Vec::<u8>::with_capacity(4 + header.1.len() + ciphertext.len());
    encrypted.extend_from_slice(&u32::to_be_bytes(header.1.len() as u32));
    encrypted.extend_from_slice(&header.1);
    encrypted.extend_from_slice(&ciphertext);
    Ok(encrypted)""", """    let (key, header_bytes) = (header.0, header.1);
    debug_assert!(!key_is_empty(&ciphertext));
    let mut encrypted = (header_bytes.len() as u32).to_be_bytes().to_vec();
    encrypted.extend(header_bytes);
    encrypted.extend(ciphertext);
    drop(key);
    Ok(encrypted)"""), (PY, "let ciphertext = encrypt_hybrid_block(header.0, ", "let ciphertext = encrypt_hybrid_block(header.0.clone(), "),
  (PY, """fn internal_decrypt_hybrid_block(""", """fn key_is_empty(bytes: &[u8]) -> bool {
    bytes.is_empty()
}

fn internal_decrypt_hybrid_block("""))

r("python-split", (PY, """    let header = &encrypted_bytes[4..4 + header_size as usize];
    let ciphertext = &encrypted_bytes[4 + header_size as usize..];
""", """    let (header, ciphertext) = encrypted_bytes[4..].split_at(header_size as usize);
"""))

r("wasm-cache-helper", (WD, """    let cleartext_header: ClearTextHeader<Aes256GcmCrypto> =
        decrypt_hybrid_header::<Gpsw<Bls12_381>, Aes256GcmCrypto>(
            &user_decryption_key,
            encrypted_header_bytes.to_vec().as_slice(),
        )
        .map_err(|e| JsValue::from_str(&format!("Error decrypting hybrid header: {e}")))?;

    let cleartext_header_bytes = cleartext_header
        .try_into_bytes()
        .map_err(|e| JsValue::from_str(&format!("Error serializing cleartext header: {e}")))?;

    Ok(js_sys::Uint8Array::from(&cleartext_header_bytes[..]))
}
""", """    clear_header(&user_decryption_key, &encrypted_header_bytes)
}

fn clear_header(
    user_decryption_key: &UserDecryptionKey,
    encrypted_header: &js_sys::Uint8Array,
) -> Result<js_sys::Uint8Array, JsValue> {
    let cleartext_header: ClearTextHeader<Aes256GcmCrypto> =
        decrypt_hybrid_header::<Gpsw<Bls12_381>, Aes256GcmCrypto>(
            user_decryption_key,
            &encrypted_header.to_vec(),
        )
        .map_err(|e| JsValue::from_str(&format!("Error decrypting hybrid header: {e}")))?;
    let bytes = cleartext_header
        .try_into_bytes()
        .map_err(|e| JsValue::from_str(&format!("Error serializing cleartext header: {e}")))?;
    Ok(js_sys::Uint8Array::from(bytes.as_slice()))
}
"""), (WD, """    let cleartext_header: ClearTextHeader<Aes256GcmCrypto> =
        decrypt_hybrid_header::<Gpsw<Bls12_381>, Aes256GcmCrypto>(
            &cache.user_decryption_key,
            encrypted_header.to_vec().as_slice(),
        )
        .map_err(|e| JsValue::from_str(&format!("Error decrypting hybrid header: {e}")))?;

    let cleartext_header_bytes = cleartext_header
        .try_into_bytes()
        .map_err(|e| JsValue::from_str(&format!("Error serializing cleartext header: {e}")))?;

    Ok(js_sys::Uint8Array::from(&cleartext_header_bytes[..]))
}
""", """    clear_header(&cache.user_decryption_key, &encrypted_header)
}
"""))

r("wasm-size-slice", (WD, """    let mut header_size_bytes = [0; 4];
    header_size_bytes.copy_from_slice(&encrypted_bytes.to_vec()[0..4]);
    let header_size = u32::from_be_bytes(header_size_bytes);

    Ok(header_size)""", """    let bytes = encrypted_bytes.to_vec();
    Ok(u32::from_be_bytes([bytes[0], bytes[1], bytes[2], bytes[3]]))"""))

r("policy-axis-direct", (PK, """    for axis in &policy_axis {
        let attrs = axis
            .attributes
            .iter()
            .map(std::ops::Deref::deref)
            .collect::<Vec<_>>();

        policy
            .add_axis(&PolicyAxis::new(&axis.name, &attrs, axis.hierarchical))
            .map_err(|e| PyTypeError::new_err(format!("Add axis failed: {e}")))?;
    }
""", """    policy_axis.iter().try_for_each(|axis| {
        policy
            .add_axis(axis)
            .map_err(|e| PyTypeError::new_err(format!("Add axis failed: {e}")))
    })?;
"""))

r("policy-axis-helper", (PK, """        let attrs = axis
            .attributes
            .iter()
            .map(std::ops::Deref::deref)
            .collect::<Vec<_>>();

        policy
            .add_axis(&PolicyAxis::new(&axis.name, &attrs, axis.hierarchical))
            .map_err(|e| PyTypeError::new_err(format!("Add axis failed: {e}")))?;
    }
    let policy_bytes = serde_json::to_vec(&policy)
        .map_err(|e| PyTypeError::new_err(format!("Error serializing policy: {e}")))?;

    Ok(policy_bytes)
}
""", """        add_one(&mut policy, axis)?;
    }
    serde_json::to_vec(&policy)
        .map_err(|e| PyTypeError::new_err(format!("Error serializing policy: {e}")))
}

fn add_one(policy: &mut Policy, axis: &PolicyAxis) -> PyResult<()> {
    let mut attrs: Vec<&str> = Vec::with_capacity(axis.attributes.len());
    for a in &axis.attributes {
        attrs.push(a.as_str());
    }
    let copy = PolicyAxis::new(axis.name.as_str(), attrs.as_slice(), axis.hierarchical);
    match policy.add_axis(&copy) {
        Ok(()) => Ok(()),
        Err(e) => Err(PyTypeError::new_err(format!("Add axis failed: {e}"))),
    }
}
"""))


# the linear solver
r("solver-no-index-test",
  ('src/core/gpsw/scheme.rs',
   '                for r in curr_row + 1..nb_row {\n                    let index = (matrix[curr_col][r]).clone();\n                    if index != G::ZERO {\n                        for col in matrix.iter_mut().skip(curr_col) {\n                            // TODO: avoid index.clone if possible\n                            col[r] = col[r].clone() - &(index.clone() * &(col[curr_row]))\n                        }\n                    }\n                }\n',
   '                for r in curr_row + 1..nb_row {\n                    let index = (matrix[curr_col][r]).clone();\n                    {\n                        for col in matrix.iter_mut().skip(curr_col) {\n                            // TODO: avoid index.clone if possible\n                            col[r] = col[r].clone() - &(index.clone() * &(col[curr_row]))\n                        }\n                    }\n                }\n'))
r("solver-no-one-test",
  ('src/core/gpsw/scheme.rs',
   '                if matrix[curr_col][curr_row] != G::ONE {\n                    let index_val = std::mem::replace(&mut matrix[curr_col][curr_row], G::ONE);\n                    for col in matrix.iter_mut().skip(curr_col + 1) {\n                        // TODO: Is it possible to avoir this clone ?\n                        // At the moment, No (we can use std::mem::replace)\n                        col[curr_row] = col[curr_row].clone() / &index_val;\n                    }\n                }\n',
   '                {\n                    let index_val = std::mem::replace(&mut matrix[curr_col][curr_row], G::ONE);\n                    for col in matrix.iter_mut().skip(curr_col + 1) {\n                        // TODO: Is it possible to avoir this clone ?\n                        // At the moment, No (we can use std::mem::replace)\n                        col[curr_row] = col[curr_row].clone() / &index_val;\n                    }\n                }\n'))
r("solver-one-elim",
  ('src/core/gpsw/scheme.rs',
   '                for r in curr_row + 1..nb_row {\n                    let index = (matrix[curr_col][r]).clone();\n                    if index != G::ZERO {\n                        for col in matrix.iter_mut().skip(curr_col) {\n                            // TODO: avoid index.clone if possible\n                            col[r] = col[r].clone() - &(index.clone() * &(col[curr_row]))\n                        }\n                    }\n                }\n                // reverse side\n                for r in 0..curr_row {\n                    let index = (matrix[curr_col][r]).clone();\n                    if index != G::ZERO {\n                        for col in matrix.iter_mut().skip(curr_col) {\n                            // TODO: avoid index.clone if possible\n                            col[r] = col[r].clone() - &(index.clone() * &(col[curr_row]))\n                        }\n                    }\n                }\n',
   '                for r in 0..nb_row {\n                    if r == curr_row { continue; }\n                    let index = (matrix[curr_col][r]).clone();\n                    if index != G::ZERO {\n                        for col in matrix.iter_mut().skip(curr_col) {\n                            // TODO: avoid index.clone if possible\n                            col[r] = col[r].clone() - &(index.clone() * &(col[curr_row]))\n                        }\n                    }\n                }\n'))
r("solver-while",
  ('src/core/gpsw/scheme.rs',
   '        loop {\n            if curr_col == nb_col || curr_row == nb_row {\n                break;\n            }\n',
   '        while curr_col < nb_col && curr_row < nb_row {\n'))
r("solver-find",
  ('src/core/gpsw/scheme.rs',
   '            for r in curr_row..nb_row {\n                let tmp = &matrix[curr_col][r];\n                if *tmp != G::ZERO {\n                    row = Some(r);\n                    break;\n                }\n            }\n',
   '            for (r, tmp) in matrix[curr_col].iter().enumerate().skip(curr_row) {\n                if *tmp != G::ZERO {\n                    row = Some(r);\n                    break;\n                }\n            }\n'))
r("solver-find2",
  ('src/core/gpsw/scheme.rs',
   'let mut row = None;',
   'let row = (curr_row..nb_row).find(|r| matrix[curr_col][*r] != G::ZERO);'),
  ('src/core/gpsw/scheme.rs',
   '            for r in curr_row..nb_row {\n                let tmp = &matrix[curr_col][r];\n                if *tmp != G::ZERO {\n                    row = Some(r);\n                    break;\n                }\n            }\n',
   ''))
r("solver-last",
  ('src/core/gpsw/scheme.rs',
   '            for r in curr_row..nb_row {\n                let tmp = &matrix[curr_col][r];\n                if *tmp != G::ZERO {\n                    row = Some(r);\n                    break;\n                }\n            }\n',
   '            for r in (curr_row..nb_row).rev() {\n                let tmp = &matrix[curr_col][r];\n                if *tmp != G::ZERO {\n                    row = Some(r);\n                    break;\n                }\n            }\n'))
r("solver-swap-if",
  ('src/core/gpsw/scheme.rs',
   'for col in matrix.iter_mut() {\n                    col.swap',
   'if row != curr_row { for col in matrix.iter_mut().skip(curr_col) {\n                    col.swap'),
  ('src/core/gpsw/scheme.rs',
   'curr_row, row);\n                }',
   'curr_row, row);\n                } }'))
r("solver-skip0",
  ('src/core/gpsw/scheme.rs',
   '                for r in 0..curr_row {\n                    let index = (matrix[curr_col][r]).clone();\n                    if index != G::ZERO {\n                        for col in matrix.iter_mut().skip(curr_col) {\n                            // TODO: avoid index.clone if possible\n                            col[r] = col[r].clone() - &(index.clone() * &(col[curr_row]))\n                        }\n                    }\n                }\n',
   '                for r in 0..curr_row {\n                    let index = (matrix[curr_col][r]).clone();\n                    if index != G::ZERO {\n                        for col in matrix.iter_mut() {\n                            // TODO: avoid index.clone if possible\n                            col[r] = col[r].clone() - &(index.clone() * &(col[curr_row]))\n                        }\n                    }\n                }\n'))
r("solver-elim-order",
  ('src/core/gpsw/scheme.rs',
   '                for r in curr_row + 1..nb_row {\n                    let index = (matrix[curr_col][r]).clone();\n                    if index != G::ZERO {\n                        for col in matrix.iter_mut().skip(curr_col) {\n                            // TODO: avoid index.clone if possible\n                            col[r] = col[r].clone() - &(index.clone() * &(col[curr_row]))\n                        }\n                    }\n                }\n                // reverse side\n                for r in 0..curr_row {\n                    let index = (matrix[curr_col][r]).clone();\n                    if index != G::ZERO {\n                        for col in matrix.iter_mut().skip(curr_col) {\n                            // TODO: avoid index.clone if possible\n                            col[r] = col[r].clone() - &(index.clone() * &(col[curr_row]))\n                        }\n                    }\n                }\n',
   '                for r in 0..curr_row {\n                    let index = (matrix[curr_col][r]).clone();\n                    if index != G::ZERO {\n                        for col in matrix.iter_mut().skip(curr_col) {\n                            // TODO: avoid index.clone if possible\n                            col[r] = col[r].clone() - &(index.clone() * &(col[curr_row]))\n                        }\n                    }\n                }\n                for r in curr_row + 1..nb_row {\n                    let index = (matrix[curr_col][r]).clone();\n                    if index != G::ZERO {\n                        for col in matrix.iter_mut().skip(curr_col) {\n                            // TODO: avoid index.clone if possible\n                            col[r] = col[r].clone() - &(index.clone() * &(col[curr_row]))\n                        }\n                    }\n                }\n'))
r("solver-index-loop",
  ('src/core/gpsw/scheme.rs',
   '                for r in curr_row + 1..nb_row {\n                    let index = (matrix[curr_col][r]).clone();\n                    if index != G::ZERO {\n                        for col in matrix.iter_mut().skip(curr_col) {\n                            // TODO: avoid index.clone if possible\n                            col[r] = col[r].clone() - &(index.clone() * &(col[curr_row]))\n                        }\n                    }\n                }\n',
   '                for r in curr_row + 1..nb_row {\n                    let index = (matrix[curr_col][r]).clone();\n                    if index != G::ZERO {\n                        for c in curr_col..nb_col {\n let col = &mut matrix[c];\n                            // TODO: avoid index.clone if possible\n                            col[r] = col[r].clone() - &(index.clone() * &(col[curr_row]))\n                        }\n                    }\n                }\n'))
r("solver-resize-first",
  ('src/core/gpsw/scheme.rs',
   'let mut vec_res = Vec::with_capacity(matrix[0].len());\n        vec_res.resize(matrix[0].len(), G::ONE);\n        matrix.push(vec_res);',
   'let target = vec![G::ONE; matrix[0].len()];\n        matrix.push(target);'))
r("solver-helper",
  ('src/core/gpsw/scheme.rs',
   '                for r in curr_row + 1..nb_row {\n                    let index = (matrix[curr_col][r]).clone();\n                    if index != G::ZERO {\n                        for col in matrix.iter_mut().skip(curr_col) {\n                            // TODO: avoid index.clone if possible\n                            col[r] = col[r].clone() - &(index.clone() * &(col[curr_row]))\n                        }\n                    }\n                }\n                // reverse side\n                for r in 0..curr_row {\n                    let index = (matrix[curr_col][r]).clone();\n                    if index != G::ZERO {\n                        for col in matrix.iter_mut().skip(curr_col) {\n                            // TODO: avoid index.clone if possible\n                            col[r] = col[r].clone() - &(index.clone() * &(col[curr_row]))\n                        }\n                    }\n                }\n',
   '                Self::elim(matrix, curr_col, curr_row, curr_row + 1, nb_row);\n                Self::elim(matrix, curr_col, curr_row, 0, curr_row);\n'),
  ('src/core/gpsw/scheme.rs',
   '    pub fn span_coefs(',
   '    fn elim(matrix: &mut [Vec<G::Scalar>], curr_col: usize, curr_row: usize, from: usize, to: usize) {\n                for r in from..to {\n                    let index = (matrix[curr_col][r]).clone();\n                    if index != G::ZERO {\n                        for col in matrix.iter_mut().skip(curr_col) {\n                            // TODO: avoid index.clone if possible\n                            col[r] = col[r].clone() - &(index.clone() * &(col[curr_row]))\n                        }\n                    }\n                }\n    }\n\n    pub fn span_coefs('))
r("solver-has-sol",
  ('src/core/gpsw/scheme.rs',
   'let mut last_pivot_col = 0;',
   'let mut none = false;'),
  ('src/core/gpsw/scheme.rs',
   'last_pivot_col = curr_col;',
   'none = curr_col == nb_col - 1;'),
  ('src/core/gpsw/scheme.rs',
   'if last_pivot_col == nb_col - 1 {',
   'if none {'))
r("solver-lp-option",
  ('src/core/gpsw/scheme.rs',
   'let mut last_pivot_col = 0;',
   'let mut last_pivot_col = None;'),
  ('src/core/gpsw/scheme.rs',
   'last_pivot_col = curr_col;',
   'last_pivot_col = Some(curr_col);'),
  ('src/core/gpsw/scheme.rs',
   'if last_pivot_col == nb_col - 1 {',
   'if last_pivot_col == Some(nb_col - 1) {'))
r("solver-rhs",
  ('src/core/gpsw/scheme.rs',
   'sol.push(matrix.last().unwrap()[i].clone());',
   'sol.push(matrix[nb_col - 1][i].clone());'))
r("solver-inverse",
  ('src/core/gpsw/scheme.rs',
   '                if matrix[curr_col][curr_row] != G::ONE {\n                    let index_val = std::mem::replace(&mut matrix[curr_col][curr_row], G::ONE);\n                    for col in matrix.iter_mut().skip(curr_col + 1) {\n                        // TODO: Is it possible to avoir this clone ?\n                        // At the moment, No (we can use std::mem::replace)\n                        col[curr_row] = col[curr_row].clone() / &index_val;\n                    }\n                }\n',
   '                if matrix[curr_col][curr_row] != G::ONE {\n                    let index_val = std::mem::replace(&mut matrix[curr_col][curr_row], G::ONE);\n                    for col in matrix.iter_mut().skip(curr_col + 1) {\n                        // TODO: Is it possible to avoir this clone ?\n                        // At the moment, No (we can use std::mem::replace)\n                        col[curr_row] = col[curr_row].clone() / &index_val;\n                    }\n                }\n'))
r("solver-zero-sol",
  ('src/core/gpsw/scheme.rs',
   '        let mut sol = Vec::with_capacity(nb_col);\n        let mut current_col = 0;\n        \'outer: for i in 0..nb_row {\n            while matrix[current_col][i] == G::ZERO {\n                current_col += 1;\n                sol.push(G::ZERO);\n                if current_col == nb_col {\n                    break \'outer;\n                }\n            }\n            if matrix[current_col][i] == G::ONE {\n                current_col += 1;\n                sol.push(matrix.last().unwrap()[i].clone());\n            } else {\n                panic!("error");\n            }\n            if current_col == nb_col {\n                break \'outer;\n            }\n        }\n        sol.resize(nb_col - 1, G::ZERO);',
   '        let mut sol = vec![G::ZERO; nb_col - 1];\n        for i in 0..curr_row {\n            for c in 0..nb_col - 1 {\n                if matrix[c][i] != G::ZERO {\n                    sol[c] = matrix[nb_col - 1][i].clone();\n                    break;\n                }\n            }\n        }'))
r("solver-reading-helper",
  ('src/core/gpsw/scheme.rs',
   '                sol.push(G::ZERO);',
   '                Self::pad(&mut sol);'),
  ('src/core/gpsw/scheme.rs',
   '    pub fn span_coefs(',
   '    fn pad(sol: &mut Vec<G::Scalar>) { sol.push(G::ZERO); }\n\n    pub fn span_coefs('))
r("solver-reading-for",
  ('src/core/gpsw/scheme.rs',
   "            if current_col == nb_col {\n                break 'outer;\n            }\n        }\n        sol",
   '            if current_col >= nb_col {\n                break;\n            }\n        }\n        sol'))
r("solver-early-none",
  ('src/core/gpsw/scheme.rs',
   '                last_pivot_col = curr_col;',
   '                if curr_col + 1 == nb_col { return Ok(None); }\n                last_pivot_col = curr_col;'))
r("solver-retain",
  ('src/core/gpsw/scheme.rs',
   'let mut last_pivot_col = 0;',
   'let mut last_pivot_col = 0usize;'))


# the formula parser
r("parser-matches",
  ('src/core/msp.rs',
   's.chars().any(|c| !authorized.contains(&c))',
   '!s.chars().all(|c| authorized.contains(&c))'))
r("parser-matches2",
  ('src/core/msp.rs',
   '!authorized.contains(&c))',
   "!matches!(c, ' ' | '(' | ')' | '&' | '|' | '0'..='9'))"),
  ('src/core/msp.rs',
   "        let authorized = [\n            ' ', '(', ')', '&', '|', '0', '1', '2', '3', '4', '5', '6', '7', '8', '9',\n        ];\n",
   ''))
r("parser-digit",
  ('src/core/msp.rs',
   '!authorized.contains(&c))',
   '!(c.is_ascii_digit() || authorized.contains(&c)))'))
r("parser-loop",
  ('src/core/msp.rs',
   '        if s.is_empty() || s.chars().any(|c| !authorized.contains(&c)) {',
   '        let mut bad = s.is_empty();\n        for c in s.chars() {\n            if !authorized.contains(&c) {\n                bad = true;\n            }\n        }\n        if bad {'))
r("parser-replace",
  ('src/core/msp.rs',
   'str::replace(s, " ", "")',
   's.replace(\' \', "")'))
r("parser-contains",
  ('src/core/msp.rs',
   "            let c = new_s.matches(')').count();\n            if c == 0 {",
   "            if !new_s.contains(')') {"))
r("parser-indices",
  ('src/core/msp.rs',
   'new_s.chars().enumerate()',
   'new_s.char_indices()'))
r("parser-start1",
  ('src/core/msp.rs',
   'let mut count = 0;',
   'let mut count = 1;'),
  ('src/core/msp.rs',
   'if count < 0 {',
   'if count == 0 {'))
r("parser-le",
  ('src/core/msp.rs',
   'if count < 0 {',
   'if count <= -1 {'))
r("parser-ifelse",
  ('src/core/msp.rs',
   "                match c {\n                    '(' => count += 1,\n                    ')' => count -= 1,\n                    _ => {}\n                };",
   "                if c == '(' {\n                    count += 1;\n                } else if c == ')' {\n                    count -= 1;\n                }"))
r("parser-strip",
  ('src/core/msp.rs',
   "            let new_s = &new_s[1..];\n            if first_char != '(' {",
   "            let rest = new_s.strip_prefix('(');\n            let new_s = &new_s[1..];\n            if rest.is_none() {"))
r("parser-helper",
  ('src/core/msp.rs',
   "            match operator {\n                '&' => Ok(Self::And(a, Box::new(Self::parse(new_s)?))),\n                '|' => Ok(Self::Or(a, Box::new(Self::parse(new_s)?))),\n                _ => Err(ParsingError::UnsupportedOperator(operator.to_string())),\n            }",
   '            Self::join(operator, a, new_s)'),
  ('src/core/msp.rs',
   '    // Very basic parser',
   "    fn join(operator: char, a: Box<Self>, rest: &str) -> Result<Self, ParsingError> {\n        match operator {\n            '&' => Ok(Self::And(a, Box::new(Self::parse(rest)?))),\n            '|' => Ok(Self::Or(a, Box::new(Self::parse(rest)?))),\n            _ => Err(ParsingError::UnsupportedOperator(operator.to_string())),\n        }\n    }\n\n    // Very basic parser"))
r("parser-closefn",
  ('src/core/msp.rs',
   "            let mut count = 0;\n            let mut right_closing_parenthesis = 0;\n            for (index, c) in new_s.chars().enumerate() {\n                match c {\n                    '(' => count += 1,\n                    ')' => count -= 1,\n                    _ => {}\n                };\n                if count < 0 {\n                    right_closing_parenthesis = index;\n                    break;\n                }\n            }\n",
   '            let right_closing_parenthesis = Self::closing(new_s);\n'),
  ('src/core/msp.rs',
   '    // Very basic parser',
   "    fn closing(s: &str) -> usize {\n        let mut count = 0;\n        for (index, c) in s.chars().enumerate() {\n            match c {\n                '(' => count += 1,\n                ')' => count -= 1,\n                _ => {}\n            }\n            if count < 0 {\n                return index;\n            }\n        }\n        0\n    }\n\n    // Very basic parser"))
r("parser-bytes",
  ('src/core/msp.rs',
   "new_s.chars().enumerate() {\n                match c {\n                    '(' => count += 1,\n                    ')' =>",
   "new_s.bytes().enumerate() {\n                match c {\n                    b'(' => count += 1,\n                    b')' =>"))
r("parser-split",
  ('src/core/msp.rs',
   '            let between_parenthesis = &new_s[..right_closing_parenthesis];\n            let new_s = &new_s[between_parenthesis.len()..];',
   '            let (between_parenthesis, new_s) = new_s.split_at(right_closing_parenthesis);'))
r("parser-find",
  ('src/core/msp.rs',
   '.find_at(&new_s, 0)',
   '.find(&new_s)'))
r("parser-ismatch",
  ('src/core/msp.rs',
   '        if int_reg.is_match(&new_s) {',
   '        if new_s.chars().next().map_or(false, |c| c.is_ascii_digit()) {'))
r("parser-end",
  ('src/core/msp.rs',
   'new_s[integer_str.len()..]',
   'new_s[int_reg.find(&new_s).map_or(0, |m| m.end())..]'))
r("parser-let",
  ('src/core/msp.rs',
   "'&' => Ok(Self::And(a, Box::new(Self::parse(new_s)?))),",
   "'&' => {\n                    let right = Self::parse(new_s)?;\n                    Ok(Self::And(a, Box::new(right)))\n                }"))
r("parser-closefind",
  ('src/core/msp.rs',
   "            let c = new_s.matches(')').count();\n            if c == 0 {",
   "            if new_s.find(')').is_none() {"))
r("parser-noregex",
  ('src/core/msp.rs',
   '        let int_reg = Regex::new(r"^\\d+")?;\n        if int_reg.is_match(&new_s) {\n            if int_reg.captures_len() != 1 {\n                return Err(ParsingError::UnexpectedCharacter(\n                    "it must starts with an integer".to_string(),\n                ));\n            }\n            let integer_str = int_reg\n                .find_at(&new_s, 0)\n                .ok_or_else(|| {\n                    ParsingError::UnexpectedCharacter(format!(\n                        "integer detected by regex but not found in: {new_s}"\n                    ))\n                })?\n                .as_str();',
   '        let _ = Regex::new(r"^\\d+")?;\n        let n = new_s.chars().take_while(char::is_ascii_digit).count();\n        if n > 0 {\n            let integer_str = &new_s[..n];'))
