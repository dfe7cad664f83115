"""behaviour-preserving edits (dev): run by refactortest.py; the checks have to stay quiet on them"""
R = {}
def r(name, props, f, *edits):
    R[name] = (props.split(), f, edits)

C = 'src/core.rs'
r('bwt_sa_if', 'P01 P02', C, ('''        bwt[i] = text[(n + (sa[i] as usize) - 1) % n];
''', '''        let start = sa[i] as usize;
        bwt[i] = if start == 0 { text[n - 1] } else { text[start - 1] };
'''))
r('bwt_sa_push', 'P01', C, ('''    let mut bwt = vec![text[0]; n];
    // let mut rsa = vec![0; n];
    for i in 0..n {
        bwt[i] = text[(n + (sa[i] as usize) - 1) % n];
''', '''    let mut bwt = Vec::with_capacity(n);
    for position in sa.iter() {
        bwt.push(text[(n + (*position as usize) - 1) % n]);
'''))
r('bwt_helper', 'P01', C, ('''    for i in 0..n {
        bwt[i] = text[(n + sa[i] - 1) % n];
    }
    bwt
}
''', '''    for i in 0..n {
        bwt[i] = text[cyclic_predecessor(sa[i], n)];
    }
    bwt
}

fn cyclic_predecessor(position: usize, n: usize) -> usize {
    (n + position - 1) % n
}
'''))
r('matrix_match', 'P02', C, ('''            let cmp = text[(a + i) % text.len()].cmp(&text[(b + i) % text.len()]);
            if cmp == std::cmp::Ordering::Equal {
                continue;
            }
            return cmp;''', '''            let ordering = text[(a + i) % text.len()].cmp(&text[(b + i) % text.len()]);
            if ordering != std::cmp::Ordering::Equal {
                return ordering;
            }'''))
r('matrix_n', 'P02', C, ('''    let mut indices = Vec::with_capacity(text.len());
    for i in 0..text.len() {
        indices.push(i);
    }''', '''    let length = text.len();
    let mut indices = Vec::with_capacity(length);
    for index in 0..length {
        indices.push(index);
    }'''))
r('matrix_collect', 'P02', C, ('''    let mut indices = Vec::with_capacity(text.len());
    for i in 0..text.len() {
        indices.push(i);
    }''', '''    let mut indices: Vec<usize> = (0..text.len()).collect();'''))
r('bymatrix_extend', 'P02', C, ('''    for letter in text[conjugate_start..n].iter() {
        newtext.push(*letter);
    }
    for letter in text[0..conjugate_start].iter() {
        newtext.push(*letter);
    }''', '''    newtext.extend_from_slice(&text[conjugate_start..n]);
    newtext.extend_from_slice(&text[0..conjugate_start]);'''))
r('lynconj_order', 'P04', C, ('''        if factors[x + 1] + 1 >= n {
            return factors[x] + 1;
        }''', '''        let next_end = factors[x + 1];
        if next_end + 1 >= n {
            let start = factors[x] + 1;
            return start;
        }'''))
r('prim_period', 'P06', C, ('''    if period == text.len() {
        return true;
    }
    (text.len() % smallest_period(&border)) != 0''', '''    period == text.len() || text.len() % period != 0'''))
r('prim_rename', 'P06', C, ('''    let border = border_array(text);
    let period = smallest_period(&border);
    if period == text.len() {
        return true;
    }
    (text.len() % smallest_period(&border)) != 0''', '''    let n = text.len();
    let borders = border_array(text);
    let p = smallest_period(&borders);
    if p == n {
        return true;
    }
    (n % p) != 0'''))
r('border_for', 'P05 P06', C, ('''    for entry in border.iter_mut().skip(1) {
        *entry -= 1;
    }''', '''    for i in 1..border.len() {
        border[i] -= 1;
    }'''))
r('border_rename', 'P05 P06', C, ('''        let mut length = border[i];
        while length > 0 && text[length - 1] != text[i] {
            length = border[length - 1];
        }
        border.push(length + 1);''', '''        let current = &text[i];
        let mut candidate = border[i];
        while candidate > 0 && text[candidate - 1] != *current {
            candidate = border[candidate - 1];
        }
        border.push(candidate + 1);'''))
r('border_loop', 'P05', C, ('''        while length > 0 && text[length - 1] != text[i] {
            length = border[length - 1];
        }''', '''        loop {
            if length == 0 || text[length - 1] == text[i] {
                break;
            }
            length = border[length - 1];
        }'''))
r('phi_prev', 'P08 P11', C, ('''    for i in 1..sa.len() {
        phi[sa[i].as_()] = sa[i - 1];
    }
    phi[sa[0].as_()] = sa[sa.len() - 1];''', '''    let n = sa.len();
    phi[sa[0].as_()] = sa[n - 1];
    for i in 1..n {
        let previous = sa[i - 1];
        phi[sa[i].as_()] = previous;
    }'''))
r('inv_enum', 'P08 P12', C, ('''    for i in 0..arr.len() {
        inv[arr[i].as_()] = T::from_usize(i).unwrap();
    }''', '''    for (i, value) in arr.iter().enumerate() {
        inv[value.as_()] = T::from_usize(i).unwrap();
    }'''))
r('plcp_sub', 'P08 P10', C, ('''        length = length.saturating_sub(1);
    }''', '''        if length > 0 {
            length -= 1;
        }
    }'''))
r('plcp_n', 'P08 P11 P12', C, ('''    for position_b in 0..text.len() {
        let position_a = phi[position_b] as usize;
''', '''    let n = text.len();
    for position_b in 0..n {
        let position_a = phi[position_b] as usize;
'''), ('''        while position_a + length < text.len()
            && position_b + length < text.len()
            && text[position_a + length] == text[position_b + length]
        {
            length += 1;
        }
''', '''        while position_a + length < n
            && position_b + length < n
            && text[position_a + length] == text[position_b + length]
        {
            length += 1;
        }
'''))
r('plcp_max', 'P08', C, ('''        while position_a + length < text.len()
            && position_b + length < text.len()
            && text''', '''        let limit = text.len() - std::cmp::max(position_a, position_b);
        while length < limit
            && text'''))
r('lcp_push', 'P08', C, ('''    let mut lcp = vec![0; plcp.len()];
    for i in 0..lcp.len() {
        lcp[i] = plcp[sa[i].as_()]
    }''', '''    let mut lcp = Vec::with_capacity(plcp.len());
    for i in 0..plcp.len() {
        lcp.push(plcp[sa[i].as_()]);
    }'''))
r('psv_rev', 'P09', C, ('''            if arr[p] < arr[i] {
                psv[i] = p as u32;
                break;
            }
            p = psv[p] as usize;''', '''            if arr[p] >= arr[i] {
                p = psv[p] as usize;
                continue;
            }
            psv[i] = p as u32;
            break;'''))
r('psv_while', 'P09', C, ('''        let mut p = i - 1;
        psv[i] = INVALID_VALUE;
        while p != INVALID_VALUE as usize {
            if arr[p] < arr[i] {
                psv[i] = p as u32;
                break;
            }
            p = psv[p] as usize;
        }''', '''        let mut p = (i - 1) as u32;
        while p != INVALID_VALUE && arr[p as usize] >= arr[i] {
            p = psv[p as usize];
        }
        psv[i] = p;'''))
r('psv_n', 'P09 P10', C, ('''    let mut psv = vec![0; arr.len()];
    psv[0] = INVALID_VALUE;
    for i in 1..arr.len() {''', '''    let n = arr.len();
    let mut psv = vec![INVALID_VALUE; n];
    for i in 1..n {'''))
r('nsv_while', 'P09', C, ('''    for i in (0..arr.len() - 1).rev() {
        let mut p = i + 1;
        nsv[i] = INVALID_VALUE;''', '''    let mut i = arr.len() - 1;
    while i > 0 {
        i -= 1;
        let mut p = i + 1;
        nsv[i] = INVALID_VALUE;'''))
r('duval_else', 'P03 P04', C, ('''            if text[i] < text[j] {
                i = k;
            }
            if text[i] == text[j] {
                i += 1;
            }
            j += 1;''', '''            let smaller = text[i] < text[j];
            j += 1;
            if smaller {
                i = k;
            }
            if text[i] == text[j - 1] {
                i += 1;
            }'''))
r('duval_rename', 'P03 P07', C, ('''        let mut i = k;
        let mut j = k + 1;
        while j != n && text[i] <= text[j] {
            if text[i] < text[j] {
                i = k;
            }
            if text[i] == text[j] {
                i += 1;
            }
            j += 1;
        }
        loop {
            assert_lt!(i, j);
            k += j - i;
            ending_positions.push(k - 1_usize);
            if k >= i {
                break;
            }
        }''', '''        let mut left = k;
        let mut right = k + 1;
        while right < n && text[left] <= text[right] {
            if text[left] < text[right] {
                left = k;
            }
            if text[left] == text[right] {
                left += 1;
            }
            right += 1;
        }
        let period = right - left;
        loop {
            k += period;
            ending_positions.push(k - 1_usize);
            if k >= left {
                break;
            }
        }'''))
r('isa_for', 'P03', C, ('''    let mut k = 0;
    let mut current_val = isa[k];
    let n = isa.len();
    k += 1;
    while k < n {
        if isa[k] < current_val {
            ending_positions.push(k - 1_usize);
            current_val = isa[k];
        }
        k += 1;
    }''', '''    let n = isa.len();
    let mut smallest = isa[0];
    for k in 1..n {
        if isa[k] < smallest {
            ending_positions.push(k - 1_usize);
            smallest = isa[k];
        }
    }'''))
r('isa_rename', 'P03', C, ('''        if isa[k] < current_val {
            ending_positions.push(k - 1_usize);
            current_val = isa[k];
        }
        k += 1;''', '''        let rank = isa[k];
        if rank < current_val {
            ending_positions.push(k - 1_usize);
            current_val = rank;
        }
        k = k + 1;'''))
r('lyngen_let', 'P19', C, ('''        let current_length = stack.len();
        while stack.len() < self.m_length {
            //@ repeat word to fill exactly n syms
            stack.push(stack[stack.len() - current_length]);
        }''', '''        let period = stack.len();
        while stack.len() < self.m_length {
            let next_symbol = stack[stack.len() - period];
            stack.push(next_symbol);
        }'''))
r('lyngen_for', 'P19', C, ('''        while stack.len() < self.m_length {
            //@ repeat word to fill exactly n syms
            stack.push(stack[stack.len() - current_length]);
        }''', '''        for position in current_length..self.m_length {
            let symbol = stack[position - current_length];
            stack.push(symbol);
        }'''))
r('bin_shift', 'P20', C, ('''            let bit = if i < 64 { self.m_rank & (1 << i) } else { 0 };
            text.push(if bit == 0 { b'0' } else { b'1' });''', '''            let is_set = i < 64 && (self.m_rank >> i) & 1 == 1;
            text.push(if is_set { b'1' } else { b'0' });'''))
r('conj_slice', 'P20', C, ('''        for i in self.m_pos..self.m_text.len() {
            ret.push(self.m_text[i]);
        }
        for i in 0..self.m_pos {
            ret.push(self.m_text[i]);
        }''', '''        ret.extend_from_slice(&self.m_text[self.m_pos..]);
        ret.extend_from_slice(&self.m_text[..self.m_pos]);'''))
r('conj_rot', 'P20', C, ('''        for i in self.m_pos..self.m_text.len() {
            ret.push(self.m_text[i]);
        }
        for i in 0..self.m_pos {
            ret.push(self.m_text[i]);
        }''', '''        let n = self.m_text.len();
        for offset in 0..n {
            ret.push(self.m_text[(self.m_pos + offset) % n]);
        }'''))
r('runs_while', 'P14', C, ('''            loop {
                match io::read_char(reader) {
                    Err(_) => break,
                    Ok(next_char) => {
                        if next_char != prev_char {
                            prev_char = next_char;
                            run_counter += 1;
                        }
                    }
                }
            }''', '''            while let Ok(next_char) = io::read_char(reader) {
                if next_char != prev_char {
                    run_counter += 1;
                    prev_char = next_char;
                }
            }'''))
r('bbwt_pos', 'P07', C, ('''        let position = if conjugates[i].index == 0 {
            conjugates[i].lyndon_end
        } else {
            conjugates[i].lyndon_start + conjugates[i].index - 1
        };
        bbwt[i] = text[position];''', '''        let conjugate = &conjugates[i];
        bbwt[i] = if conjugate.index != 0 {
            text[conjugate.lyndon_start + conjugate.index - 1]
        } else {
            text[conjugate.lyndon_end]
        };'''))
r('bbwt_else', 'P07', C, ('''            if char_a < char_b {
                return std::cmp::Ordering::Less;
            } else {
                return std::cmp::Ordering::Greater;
            }''', '''            return if char_a < char_b {
                std::cmp::Ordering::Less
            } else {
                std::cmp::Ordering::Greater
            };'''))
r('sanaive_closure', 'P01', C, ('''        let asuffix = &text[*a..];
        let bsuffix = &text[*b..];
        asuffix.cmp(bsuffix)''', '''        text[*a..].cmp(&text[*b..])'''))
r('sanaive_loop', 'P01', C, ('''    for (i, entry) in sa.iter_mut().enumerate() {
        *entry = i;
    }''', '''    for i in 0..n {
        sa[i] = i;
    }'''))

W = 'src/word.rs'
r('fibnum', 'P21', W, ('''    let [mut sum, mut cur, mut old] = [1, 1, 0];
    for _ in 0..k + 1 {
        sum = cur + old;
        old = cur;
        cur = sum;
    }
    sum''', '''    let (mut current, mut previous) = (1, 0);
    for _ in 0..k + 1 {
        let next = current + previous;
        previous = current;
        current = next;
    }
    current'''))
r('fibword_match', 'P21', W, ('''            if text[source] == CHR_A {
                text[target] = CHR_B;
                text[target + 1] = CHR_A;
                target += 2;
            } else {
                text[target] = CHR_A;
                target += 1;
            }
            source += 1;''', '''            match text[source] {
                CHR_A => {
                    text[target] = CHR_B;
                    text[target + 1] = CHR_A;
                    target += 2;
                }
                _ => {
                    text[target] = CHR_A;
                    target += 1;
                }
            }
            source += 1;'''))
r('thue_helper', 'P22', W, ('''            text[powerj + k] = if text[k] == CHR_A { CHR_B } else { CHR_A };''', '''            text[powerj + k] = reverse(text[k]);'''))
r('thue_pos', 'P22', W, ('''        let powerj = 1 << j;
        for k in 0..powerj {
            text[powerj + k] = if text[k] == CHR_A { CHR_B } else { CHR_A };
        }''', '''        let half = 1usize << j;
        for position in 0..half {
            let letter = if text[position] != CHR_A { CHR_A } else { CHR_B };
            text[half + position] = letter;
        }'''))
r('kola_else', 'P23', W, ('''            if text[source] == CHR_A {
                text[target] = current_symbol;
                target += 1;
            }
            if text[source] == CHR_B {
                text[target] = current_symbol;
                text[target + 1] = current_symbol;
                target += 2;
            }''', '''            if text[source] == CHR_A {
                text[target] = current_symbol;
                target += 1;
            } else {
                text[target] = current_symbol;
                text[target + 1] = current_symbol;
                target += 2;
            }'''))
r('kola_trunc', 'P23', W, ('''    unsafe {
        text.set_len(target);
    }''', '''    text.truncate(target);'''))
r('iter2_index', 'P22', W, ('''        for c in morphism(text[source_pos]) {
            text[target_pos] = *c;
            target_pos += 1;
            if target_pos == n {
                break;
            }
        }''', '''        let image = morphism(text[source_pos]);
        for letter in image {
            text[target_pos] = *letter;
            target_pos += 1;
            if target_pos >= n {
                break;
            }
        }'''))
r('itergen_extend', 'P21', W, ('''    for c in morphism(CHR_A) {
        text.push(*c);
    }
    let mut end_last_round = text.len() - 1;
    let mut source_pos = 1;
    while round < rounds {
        for c in morphism(text[source_pos]) {
            text.push(*c);
        }
        // println''', '''    text.extend_from_slice(morphism(CHR_A));
    let mut end_last_round = text.len() - 1;
    let mut source_pos = 1;
    while round < rounds {
        let image = morphism(text[source_pos]);
        text.extend_from_slice(image);
        // println'''))
r('quat_if', 'P27', W, ('''            CHR_A => {
                text[target_position] = CHR_C;
                text[target_position + 1] = CHR_A;
            }
            _ => panic!("unknown sequence : {} at position {}", text[k], k),
        }
    }
    text''', '''            CHR_A => {
                text[target_position + 1] = CHR_A;
                text[target_position] = CHR_C;
            }
            other => panic!("unknown sequence : {} at position {}", other, k),
        }
    }
    text'''))
r('quatbin_pair', 'P27', W, ('''    for i in 0..text.len() {
        match text[i] {
            CHR_D => {
                output[2 * i] = CHR_ONE;''', '''    for i in 0..text.len() {
        let letter = text[i];
        match letter {
            CHR_D => {
                output[2 * i] = CHR_ONE;'''))
r('power2_flip', 'P27', W, ('''        if j & ((1 << most_significant_bit) - 1) > 0 {
            text[j - 1] = CHR_A;
        } else {
            text[j - 1] = CHR_B;
        }''', '''        let low_bits = j & ((1 << most_significant_bit) - 1);
        text[j - 1] = if low_bits == 0 { CHR_B } else { CHR_A };'''))
r('power2_builtin', 'P27', W, ('''        while j > 1 << (most_significant_bit + 1) {
            most_significant_bit += 1;
        }
        if j & ((1 << most_significant_bit) - 1) > 0 {
            text[j - 1] = CHR_A;
        } else {
            text[j - 1] = CHR_B;
        }''', '''        text[j - 1] = if (j as usize).is_power_of_two() { CHR_B } else { CHR_A };'''), ('''    let mut most_significant_bit = 0;
''', ''))
r('debruijn_any', 'P24', W, ('''        for (i, letter) in word.iter().enumerate().take(n) {
            if *letter == CHR_B {
                break;
            }
            if i == n - 1 {
                return output;
            }
        }''', '''        if word.iter().all(|&letter| letter != CHR_B) {
            return output;
        }'''))
r('debruijn_match', 'P24', W, ('''        if let Some(period) = prenecklace_period(&word, n) {
            if n % period == 0 {
                first_char = reverse(first_char);
            }
        }''', '''        match prenecklace_period(&word, n) {
            Some(period) => {
                if n % period == 0 {
                    first_char = reverse(first_char);
                }
            }
            None => (),
        }'''))
r('neck_rename', 'P24', W, ('''    let mut i = 0;
    let mut j = 1;
    while j != n && text.index(i) <= text.index(j) {
        if text.index(i) < text.index(j) {
            i = 0;
        }
        if text.index(i) == text.index(j) {
            i += 1;
        }
        j += 1;
    }''', '''    let (mut i, mut j) = (0, 1);
    while j != n && text[i] <= text[j] {
        if text[i] < text[j] {
            i = 0;
        }
        if text[i] == text[j] {
            i += 1;
        }
        j += 1;
    }'''))
I = 'src/io.rs'
r('file_take', 'P26', I, ("""    if prefix_length > 0 {
        f.take(prefix_length as u64)
            .read_to_end(&mut buffer)
            .unwrap();
    } else {
        f.read_to_end(&mut buffer).unwrap();
    }
""", """    if prefix_length == 0 {
        f.read_to_end(&mut buffer).unwrap();
    } else {
        let mut start = f.take(prefix_length as u64);
        start.read_to_end(&mut buffer).unwrap();
    }
"""))
r('file_trunc', 'P26', I, ("""    if prefix_length > 0 {
        f.take(prefix_length as u64)
            .read_to_end(&mut buffer)
            .unwrap();
    } else {
        f.read_to_end(&mut buffer).unwrap();
    }
""", """    f.read_to_end(&mut buffer).unwrap();
    if prefix_length > 0 {
        buffer.truncate(prefix_length);
    }
"""))
r('stdin_buf', 'P26', I, ('''    if prefix_length > 0 {
        let mut buffer = Vec::new();
        reader
            .take(prefix_length as u64)
            .read_to_end(&mut buffer)
            .unwrap();
        buffer
    } else {
        let mut buffer = Vec::new();
        reader.read_to_end(&mut buffer).unwrap();
        buffer
    }''', '''    let mut buffer = Vec::new();
    if prefix_length > 0 {
        let mut limited = reader.take(prefix_length as u64);
        limited.read_to_end(&mut buffer).unwrap();
    } else {
        reader.read_to_end(&mut buffer).unwrap();
    }
    buffer'''))
r('readchar_match', 'P14 P15 P16 P17', I, ('''            if u == 1 {
                Ok(buffer[0])
            } else {
                Err(std::io::Error::new(
                    std::io::ErrorKind::Other,
                    "end of file",
                ))
            }''', '''            if u != 1 {
                return Err(std::io::Error::new(
                    std::io::ErrorKind::Other,
                    "end of file",
                ));
            }
            Ok(buffer[0])'''))
r('sigma_bool', 'P18', 'src/bin/count_sigma.rs', ('''        let index = *c as usize;
        if alphabet_to_reduced[index] == 0 {
            inc += 1;
            alphabet_to_reduced[index] = inc;
        }''', '''        let entry = &mut alphabet_to_reduced[*c as usize];
        if *entry == 0 {
            inc += 1;
            *entry = inc;
        }'''))
r('mtf_rotate', 'P15', 'src/bin/mtf.rs', ('''                for j in 0..pos {
                    mtfvector[pos - j] = mtfvector[pos - j - 1];
                }
                mtfvector[0] = cur_char;
                writer''', '''                mtfvector.remove(pos);
                mtfvector.insert(0, cur_char);
                writer'''))
r('mtf_rev', 'P15', 'src/bin/mtf.rs', ('''                for j in 0..pos {
                    mtfvector[pos - j] = mtfvector[pos - j - 1];
                }''', '''                for j in (1..=pos).rev() {
                    mtfvector[j] = mtfvector[j - 1];
                }'''))
r('rle_helper', 'P16', 'src/bin/rle.rs', ('''                        if next_char != prev_char || run_counter == u8::MAX {
                            writer.write_all(&[prev_char, run_counter]).unwrap();''', '''                        let run_ends = next_char != prev_char;
                        if run_ends || run_counter == u8::MAX {
                            writer.write_all(&[prev_char, run_counter]).unwrap();'''))
r('rle_helper2', 'P16', 'src/bin/rle.rs', ('''                        if next_char != prev_char || run_counter == u8::MAX {
                            writer.write_all(&[prev_char, run_counter]).unwrap();''', '''                        if next_char != prev_char || run_counter == u8::MAX {
                            write_pair(writer, prev_char, run_counter);'''),
  ('''pub fn rle<R:''', '''fn write_pair<W: std::io::Write>(writer: &mut W, letter: u8, counter: u8) {
    writer.write_all(&[letter, counter]).unwrap();
}

pub fn rle<R:'''))
r('lex_else', 'P11', 'src/bin/count_lexparse.rs', ('''        if plcp[i] == 0 {
            factors.push(LZFactor {
                len: 0,
                pos: text[i] as u32,
            });
            i += 1;
            continue;
        }
        factors.push(LZFactor {
            len: plcp[i],
            pos: phi[i] as u32,
        });
        i += plcp[i] as usize;''', '''        let length = plcp[i];
        if length > 0 {
            factors.push(LZFactor {
                len: length,
                pos: phi[i] as u32,
            });
            i += length as usize;
        } else {
            factors.push(LZFactor {
                len: 0,
                pos: text[i] as u32,
            });
            i += 1;
        }'''))
r('lz_max', 'P10', 'src/bin/count_z.rs', ('''        let max_lcp = if prev_lcp < next_lcp {
            next_lcp
        } else {
            prev_lcp
        };
        let max_pos = if prev_lcp < next_lcp {
            sa[nsv[sa_position] as usize]
        } else {
            sa[psv[sa_position] as usize]
        };''', '''        let (max_lcp, max_pos) = if prev_lcp < next_lcp {
            (next_lcp, sa[nsv[sa_position] as usize])
        } else {
            (prev_lcp, sa[psv[sa_position] as usize])
        };'''))
r('lz_stdmax', 'P10', 'src/bin/count_z.rs', ('''        let max_lcp = if prev_lcp < next_lcp {
            next_lcp
        } else {
            prev_lcp
        };''', '''        let max_lcp = std::cmp::max(prev_lcp, next_lcp);'''))
r('mus_max', 'P12', 'src/bin/mus.rs', ('''        if elli <= nextell {
            mus.push((i, elli + 1));
        }''', '''        if nextell < elli {
            continue;
        }
        mus.push((i, elli + 1));'''))
r('mus_if', 'P12', 'src/bin/mus.rs', ('''        if elli + i >= n {
            continue;
        }
        let nextell = getlength(i + 1);
        if elli <= nextell {
            mus.push((i, elli + 1));
        }''', '''        if elli + i < n {
            let nextell = getlength(i + 1);
            if elli <= nextell {
                mus.push((i, elli + 1));
            }
        }'''))
r('attr_swap', 'P13', 'src/bin/is_stringattractor.rs', ('''        let lcplength = edge.parent.borrow().depth as usize + 1;
        let lcpinterval = edge.child.borrow();''', '''        let lcpinterval = edge.child.borrow();
        let parent_depth = edge.parent.borrow().depth as usize;
        let lcplength = parent_depth + 1;'''))
r('attr_main', 'P13', 'src/bin/is_stringattractor.rs', ('''    if !is_attractor(text.as_slice(), args.attractor.as_slice()) {
        println!("not a valid attractor");
        std::process::exit(2);
    } else {
        println!("valid attractor");
    }''', '''    let valid = is_attractor(text.as_slice(), args.attractor.as_slice());
    if valid {
        println!("valid attractor");
    } else {
        println!("not a valid attractor");
        std::process::exit(2);
    }'''))
r('esc_match', 'P17', 'src/bin/escape.rs', ('''                    match char_mapping.get(&cur_char) {
                        Some(remapped_char) => {
                            writer.write_all(&[args.escape_symbol, *remapped_char])
                        }
                        None => writer.write_all(&[cur_char]),
                    }
                    .unwrap();''', '''                    if let Some(remapped_char) = char_mapping.get(&cur_char) {
                        writer
                            .write_all(&[args.escape_symbol, *remapped_char])
                            .unwrap();
                    } else {
                        writer.write_all(&[cur_char]).unwrap();
                    }'''))
r('esc_continue', 'P17', 'src/bin/escape.rs', ('''                        if next_char == args.escape_symbol {
                            writer.write_all(&[args.escape_symbol]).unwrap();
                            continue;
                        }
                        writer
                            .write_all(&[*revert_mapping.get(&next_char).unwrap()])
                            .unwrap();''', '''                        let original = if next_char == args.escape_symbol {
                            args.escape_symbol
                        } else {
                            *revert_mapping.get(&next_char).unwrap()
                        };
                        writer.write_all(&[original]).unwrap();'''))
r('enum_len', 'P20', 'src/bin/enumerate.rs', ('''            if indices[pos as usize] + 1 < alpha_size {
                indices[pos as usize] += 1;
                break;
            } else {
                indices[pos as usize] = 0;
                pos -= 1;
            }''', '''            let digit = indices[pos as usize];
            if digit + 1 < alpha_size {
                indices[pos as usize] = digit + 1;
                break;
            }
            indices[pos as usize] = 0;
            pos -= 1;'''))
r('ent_if', 'P25', 'src/bin/entropy.rs', ('''            if pos < text.len() {
                //@ for binary texts having 0 byte the 0 byte at the end can be matched with it!
                v.push(text[pos]);
            }''', '''            if pos >= text.len() {
                continue;
            }
            v.push(text[pos]);'''))
r('ent_block', 'P25', 'src/bin/entropy.rs', ('''            sum += compute_context(lcpindex - contextcount - 1, contextcount + 1);
            contextcount = 0;
            continue;''', '''            let first = lcpindex - contextcount - 1;
            sum += compute_context(first, contextcount + 1);
            contextcount = 0;
            continue;'''))
r('kmer_entry', 'P25', 'src/bin/entropy_kmer.rs', ('''        match kmers.get_mut(&kmer) {
            Some(val) => {
                *val += 1;
            }
            None => {
                kmers.insert(kmer, 1);
            }
        };''', '''        *kmers.entry(kmer).or_insert(0) += 1;'''))
r('kmer_reuse', 'P25', 'src/bin/entropy_kmer.rs', ('''            match kplusmers.get_mut(&kplusmer) {
                Some(val) => {
                    *val += 1;
                }
                None => {
                    kplusmers.insert(kplusmer, 1);
                }
            };''', '''            if let Some(val) = kplusmers.get_mut(&kplusmer) {
                *val += 1;
            } else {
                kplusmers.insert(kplusmer, 1);
            }'''))
r('rand_insert', 'P28', 'src/bin/randomstring.rs', ('''        charset.insert(newchar);
        writer.write_all(&[newchar]).unwrap();''', '''        writer.write_all(&[newchar]).unwrap();
        charset.insert(newchar);'''))
r('rand_full', 'P28', 'src/bin/randomstring.rs', ('''        if args.alphabet_size != 0 && charset.len() == args.alphabet_size {
            while !charset.contains(&newchar) {''', '''        let is_full = args.alphabet_size != 0 && charset.len() >= args.alphabet_size;
        if is_full {
            while !charset.contains(&newchar) {'''))
r('rev_rename', 'P26', 'src/bin/reverse.rs', ('''    text.reverse();
    writer.write_all(text.as_slice()).unwrap();''', '''    text.reverse();
    let reversed = text;
    writer.write_all(&reversed).unwrap();'''))
r('bwt_main', 'P01 P02', 'src/bin/bwt.rs', ('''    let text = if args.no_dollar {
        io::file_or_stdin2byte_vector(core::stringopt_stropt(&args.infilename), args.prefixlength)
    } else {
        let mut text = io::file_or_stdin2byte_vector(
            core::stringopt_stropt(&args.infilename),
            args.prefixlength,
        );
        text.push(0u8);
        text
    };''', '''    let mut text =
        io::file_or_stdin2byte_vector(core::stringopt_stropt(&args.infilename), args.prefixlength);
    if !args.no_dollar {
        text.push(0u8);
    }'''))
r('word_main', 'P21 P22 P23 P24 P27', 'src/bin/word.rs', ('''    writer.write_all(fun(args.k).as_slice()).unwrap();''', '''    let text = fun(args.k);
    writer.write_all(text.as_slice()).unwrap();'''))
r('lynwords', 'P19', 'src/bin/lyndonwords.rs', ('''        let out: Vec<u8> = it.iter().map(|x| x + b'a').collect::<Vec<u8>>();
        writer.write_all(&out).unwrap();
        writer.write_all(b"\\n").unwrap();''', '''        let mut out: Vec<u8> = it.iter().map(|x| x + b'a').collect::<Vec<u8>>();
        out.push(b'\\n');
        writer.write_all(&out).unwrap();'''))

# ---- helpers and closures
r('helper_lcp', 'P08 P10', C, ('''        plcp[position_b] = length as u32;
''', '''        store(&mut plcp, position_b, length);
'''), ('''pub fn compute_plcp(''', '''fn store(values: &mut [u32], index: usize, value: usize) {
    values[index] = value as u32;
}

pub fn compute_plcp(''')) if 'plcp[position_b] = length as u32;' in open('/repo/src/core.rs').read() else None
r('helper_match', 'P08', C, ('''            && text[position_a + length] == text[position_b + length]
''', '''            && agrees(text, position_a + length, position_b + length)
'''), ('''pub fn compute_plcp(''', '''#[inline]
fn agrees(text: &[u8], a: usize, b: usize) -> bool {
    text[a] == text[b]
}

pub fn compute_plcp(''')) if '&& text[position_a + length] == text[position_b + length]' in open('/repo/src/core.rs').read() else None

IO = 'src/io.rs'
r('out_iflet', 'P30 P26', IO, ('''    match filename {
        Some(filename) => {
            // info!("filename: {}", filename);
            let path = std::path::Path::new(filename);
            Box::new(std::fs::File::create(path).unwrap()) as Box<dyn std::io::Write>
        }
        None => Box::new(std::io::stdout()) as Box<dyn std::io::Write>,
    }''', '''    if let Some(name) = filename {
        return Box::new(std::fs::File::create(name).unwrap());
    }
    Box::new(std::io::stdout())'''))
r('out_options', 'P30', IO, ('''            Box::new(std::fs::File::create(path).unwrap()) as Box<dyn std::io::Write>''',
'''            let file = std::fs::OpenOptions::new().write(true).create(true).truncate(true).open(path).unwrap();
            Box::new(file) as Box<dyn std::io::Write>'''))
r('out_buffered', 'P30 P15', IO, ('''            Box::new(std::fs::File::create(path).unwrap()) as Box<dyn std::io::Write>''',
'''            Box::new(std::io::BufWriter::new(std::fs::File::create(path).unwrap())) as Box<dyn std::io::Write>'''))
r('out_helper', 'P30', IO, ('''            let path = std::path::Path::new(filename);
            Box::new(std::fs::File::create(path).unwrap()) as Box<dyn std::io::Write>''',
'''            Box::new(create_output(filename)) as Box<dyn std::io::Write>'''),
('''/// open an file for output or use''', '''fn create_output(filename: &str) -> std::fs::File {
    let path = std::path::Path::new(filename);
    match std::fs::File::create(path) {
        Ok(file) => file,
        Err(e) => panic!("cannot create {}: {}", filename, e),
    }
}

/// open an file for output or use'''))
r('in_unbuffered', 'P30 P16', IO, ('''            Box::new(std::io::BufReader::new(std::fs::File::open(path).unwrap()))
                as Box<dyn std::io::Read>''', '''            let file = std::fs::File::open(path).unwrap();
            Box::new(file) as Box<dyn std::io::Read>'''))
r('in_order', 'P30 P17', IO, ('''    match filename {
        Some(filename) => {
            // info!("filename: {}", filename);
            let path = std::path::Path::new(filename);
            Box::new(std::io::BufReader::new(std::fs::File::open(path).unwrap()))
                as Box<dyn std::io::Read>
        }
        None => Box::new(std::io::stdin()) as Box<dyn std::io::Read>,
    }''', '''    match filename {
        None => Box::new(std::io::stdin()) as Box<dyn std::io::Read>,
        Some(name) => {
            let file = std::fs::File::open(name).expect("cannot open the input");
            Box::new(std::io::BufReader::new(file)) as Box<dyn std::io::Read>
        }
    }'''))
r('mtf_order', 'P30 P15', 'src/bin/mtf.rs', ('''    let mut writer = io::stream_or_stdout(core::stringopt_stropt(&args.outfilename));
    let mut reader = io::stream_or_stdin(core::stringopt_stropt(&args.infilename));
''', '''    let mut reader = io::stream_or_stdin(core::stringopt_stropt(&args.infilename));
    let mut writer = io::stream_or_stdout(core::stringopt_stropt(&args.outfilename));
'''))
r('mtf_names', 'P30 P15', 'src/bin/mtf.rs', ('''    let mut writer = io::stream_or_stdout(core::stringopt_stropt(&args.outfilename));
    let mut reader = io::stream_or_stdin(core::stringopt_stropt(&args.infilename));
    mtf(&mut reader, &mut writer);''', '''    let output_name = core::stringopt_stropt(&args.outfilename);
    let input_name = core::stringopt_stropt(&args.infilename);
    let mut output = io::stream_or_stdout(output_name);
    let mut input = io::stream_or_stdin(input_name);
    mtf(&mut input, &mut output);'''))
r('rev_late_open', 'P30 P26', 'src/bin/reverse.rs', ('''    let mut writer = io::stream_or_stdout(core::stringopt_stropt(&args.outfilename));

''', '''
'''), ('''    text.reverse();
''', '''    text.reverse();
    let mut writer = io::stream_or_stdout(core::stringopt_stropt(&args.outfilename));
'''))
r('lyn_nobuf', 'P30 P03', 'src/bin/lyndonfactorization.rs', ('''            let mut os = std::io::BufWriter::new(std::fs::File::create(output_filename).unwrap());''',
'''            let file = std::fs::File::create(output_filename).unwrap();
            let mut os = std::io::BufWriter::new(file);'''))
r('lynwords_chain', 'P30 P19', 'src/bin/lyndonwords.rs', ('''        let out: Vec<u8> = it.iter().map(|x| x + b'a').collect::<Vec<u8>>();
        writer.write_all(&out).unwrap();
        writer.write_all(b"\\n").unwrap();''', '''        let mut line: Vec<u8> = it.iter().map(|x| x + b'a').collect::<Vec<u8>>();
        line.push(b'\\n');
        writer.write_all(&line).unwrap();'''))
r('rs_bits', 'P29', C, ('''    ((std::mem::size_of_val(&i) * 8) as u8) - i.leading_zeros() as u8''', '''    (usize::BITS - i.leading_zeros()) as u8'''))
r('rs_bits2', 'P29', C, ('''    ((std::mem::size_of_val(&i) * 8) as u8) - i.leading_zeros() as u8''', '''    let mut rest = i;
    let mut bits = 0u8;
    while rest > 0 {
        rest >>= 1;
        bits += 1;
    }
    bits'''))
r('rs_mask', 'P29', C, ('''            let alphabet_mask = usize::MAX
                >> ((std::mem::size_of_val(&usize::MAX) * 8) as u8 - self.m_log_alphabet_size);''',
'''            let alphabet_mask = (1usize << self.m_log_alphabet_size) - 1;'''))
r('rs_local', 'P29', C, ('''            for i in 1..(most_significant_bit / self.m_log_alphabet_size) as usize {
                text.push(
                    (((iter_round >> (self.m_log_alphabet_size * i as u8)) & alphabet_mask) + 1)
                        as u8,
                );
            }''', '''            let letters = (most_significant_bit / self.m_log_alphabet_size) as usize;
            for i in 1..letters {
                let digit = (iter_round >> (self.m_log_alphabet_size * i as u8)) & alphabet_mask;
                text.push((digit + 1) as u8);
            }'''))
r('lz_tie', 'P10', 'src/bin/count_z.rs', ('''        let max_lcp = if prev_lcp < next_lcp {
            next_lcp
        } else {
            prev_lcp
        };
        let max_pos = if prev_lcp < next_lcp {
            sa[nsv[sa_position] as usize]
        } else {
            sa[psv[sa_position] as usize]
        };''', '''        let (max_lcp, max_pos) = if prev_lcp <= next_lcp {
            (next_lcp, sa[nsv[sa_position] as usize])
        } else {
            (prev_lcp, sa[psv[sa_position] as usize])
        };'''))
r('escape_entry', 'P17', 'src/bin/escape.rs', ('''                char_mapping.insert(args.from_symbols[i], args.to_symbols[i]);''', '''                let symbol = args.from_symbols[i];
                char_mapping.insert(symbol, args.to_symbols[i]);'''))
r('rnd_const', 'P28 P30', 'src/bin/randomstring.rs', ('''        let mut newchar = rng.sample(Alphanumeric);
        if args.alphabet_size != 0 && charset.len() == args.alphabet_size {
            while !charset.contains(&newchar) {
                newchar = rng.sample(Alphanumeric);
            }
        }
        charset.insert(newchar);
        writer.write_all(&[newchar]).unwrap();''', '''        let mut newchar = rng.sample(Alphanumeric);
        let full = args.alphabet_size > 0 && charset.len() >= args.alphabet_size;
        while full && !charset.contains(&newchar) {
            newchar = rng.sample(Alphanumeric);
        }
        charset.insert(newchar);
        writer.write_all(&[newchar]).unwrap();'''))

# ---- batch: functions that no edit covered so far
r('n_bwt_if', 'P01', C, ("""        bwt[i] = text[(n + (sa[i] as usize) - 1) % n];
        // rsa""", """        let start = sa[i] as usize;
        bwt[i] = if start == 0 { text[n - 1] } else { text[start - 1] };
        // rsa"""))
r('n_bwt_enum', 'P01', C, ("""    for i in 0..n {
        bwt[i] = text[(n + sa[i] - 1) % n];
    }
    bwt""", """    for (i, &start) in sa.iter().enumerate() {
        bwt[i] = text[(n + start - 1) % n];
    }
    bwt"""))
r('n_bwt_map', 'P01', C, ("""    let mut bwt = vec![text[0]; n];
    for i in 0..n {
        bwt[i] = text[(n + sa[i] - 1) % n];
    }
    bwt""", """    sa.iter().map(|&start| text[(n + start - 1) % n]).collect()"""))
r('n_period', 'P05', C, ("""    let n = border_array.len() - 1;
    n - border_array[n]""", """    let length = border_array.len() - 1;
    let border = border_array[length];
    length - border"""))
r('n_period_last', 'P05', C, ("""    let n = border_array.len() - 1;
    n - border_array[n]""", """    border_array.len() - 1 - border_array.last().unwrap()"""))
r('n_runs_while', 'P14', C, ("""            loop {
                match io::read_char(reader) {
                    Err(_) => break,
                    Ok(next_char) => {
                        if next_char != prev_char {
                            prev_char = next_char;
                            run_counter += 1;
                        }
                    }
                }
            }
            run_counter""", """            while let Ok(next_char) = io::read_char(reader) {
                if next_char != prev_char {
                    run_counter += 1;
                }
                prev_char = next_char;
            }
            run_counter"""))
r('n_inv_enum', 'P08', C, ("""    for i in 0..arr.len() {
        inv[arr[i].as_()] = T::from_usize(i).unwrap();
    }""", """    for (i, x) in arr.iter().enumerate() {
        inv[x.as_()] = T::from_usize(i).unwrap();
    }"""))
r('n_phi_first', 'P08', C, ("""    for i in 1..sa.len() {
        phi[sa[i].as_()] = sa[i - 1];
    }
    phi[sa[0].as_()] = sa[sa.len() - 1];
    phi""", """    let last = sa[sa.len() - 1];
    phi[sa[0].as_()] = last;
    for i in 1..sa.len() {
        let previous = sa[i - 1];
        phi[sa[i].as_()] = previous;
    }
    phi"""))
r('n_lcp_sa', 'P08', C, ("""    for i in 0..lcp.len() {
        lcp[i] = plcp[sa[i].as_()]
    }""", """    for i in 0..sa.len() {
        let position = sa[i].as_();
        lcp[i] = plcp[position];
    }"""))
r('n_lcp_iter', 'P08', C, ("""    let mut lcp = vec![0; plcp.len()];
    for i in 0..lcp.len() {
        lcp[i] = plcp[sa[i].as_()]
    }
    lcp""", """    sa.iter().map(|x| plcp[x.as_()]).collect()"""))
r('n_nsv_init', 'P09', C, ("""    let mut nsv = vec![0; arr.len()];
    nsv[arr.len() - 1] = INVALID_VALUE;
    for i in (0..arr.len() - 1).rev() {
        let mut p = i + 1;
        nsv[i] = INVALID_VALUE;
        while""", """    let mut nsv = vec![INVALID_VALUE; arr.len()];
    for i in (0..arr.len() - 1).rev() {
        let mut p = i + 1;
        while"""))
r('n_conj_concat', 'P04', C, ("""    let mut doubletext = Vec::new();
    doubletext.extend_from_slice(text);
    doubletext""", """    let mut doubletext = text.to_vec();
    doubletext"""))
r('n_conj_shift', 'P04', C, ("""    for x in 0..factors.len() - 1 {
        if factors[x + 1] + 1 >= n {
            return factors[x] + 1;
        }
    }""", """    for x in 1..factors.len() {
        if factors[x] + 1 >= n {
            return factors[x - 1] + 1;
        }
    }"""))
r('n_optstr', 'P26 P30', C, ("""    match i {
        None => None,
        Some(s) => Some(s.as_str()),
    }""", """    if let Some(s) = i {
        Some(s.as_str())
    } else {
        None
    }"""))
r('n_optstr2', 'P26 P30', C, ("""    match i {
        None => None,
        Some(s) => Some(s.as_str()),
    }""", """    i.as_deref()"""))
r('n_sigma', 'P18', 'src/bin/count_sigma.rs', ("""    let mut inc = 0_u16;
""", """    let mut distinct = 0_u16;
"""), ("""            inc += 1;
            alphabet_to_reduced[index] = inc;
""", """            distinct += 1;
            alphabet_to_reduced[index] = distinct;
"""), ("""    }
    inc
""", """    }
    distinct
"""))
r('n_decode', 'P10', 'src/bin/count_z.rs', ("""            for p in 0..factor.len as usize {
                text.push(text[ref_pos + p]);
            }""", """            for p in ref_pos..ref_pos + factor.len as usize {
                let c = text[p];
                text.push(c);
            }"""))
r('n_decode_vars', 'P10', 'src/bin/count_z.rs', ("""        if factor.len == 0 {
            text.push(factor.pos as u8);
        } else {
            let ref_pos = text.len() - factor.pos as usize;
""", """        let length = factor.len;
        if length == 0 {
            text.push(factor.pos as u8);
        } else {
            let distance = factor.pos as usize;
            let ref_pos = text.len() - distance;
"""))
r('n_countr', 'P14', 'src/bin/count_r.rs', ("""    let bwt = match args.use_matrix {
        true => {
            if text""", """    let bwt = match !args.use_matrix {
        false => {
            if text"""), ("""        false => core::bwt""", """        true => core::bwt"""))
r('n_countr_text', 'P14 P26', 'src/bin/count_r.rs', ("""    let text = if args.no_dollar {
        io::file_or_stdin2byte_vector(core::stringopt_stropt(&args.infilename), args.prefixlength)
    } else {
        let mut text = io::file_or_stdin2byte_vector(
            core::stringopt_stropt(&args.infilename),
            args.prefixlength,
        );
        text.push(0u8);
        text
    };
""", """    let mut text =
        io::file_or_stdin2byte_vector(core::stringopt_stropt(&args.infilename), args.prefixlength);
    if !args.no_dollar {
        text.push(0u8);
    }
"""))
r('n_h0', 'P25', 'src/bin/entropy.rs', ("""        let index: usize = (*c).into();
        char_counters[index] += 1;
        total_count += 1;
""", """        total_count += 1;
        char_counters[*c as usize] += 1;
"""))
r('n_h0_sum', 'P25', 'src/bin/entropy.rs', ("""            sum += (count as f64) * ((total_count as f64 / count as f64).log2());""", """            let inverse_frequency = total_count as f64 / count as f64;
            sum += (count as f64) * inverse_frequency.log2();"""))
r('n_rle_text', 'P16', 'src/bin/rle.rs', ("""            let mut run_counter = 0_u64; //@ counts the number of character runs
            let mut prev_char = first_char; //@ the current character of the chracter run
            loop {
                match io::read_char(&mut reader) {
                    Err(_) => break,
                    Ok(next_char) => {
                        if next_char != prev_char {
                            write!(writer, "({},{})", prev_char as char, run_counter + 1).unwrap();
                            prev_char = next_char;
                            run_counter = 0;
                        } else {
                            run_counter += 1;
                        }
                    }
                }
            }
            write!(writer, "({},{})", prev_char as char, run_counter + 1).unwrap();""", """            let mut run_counter = 1_u64; //@ counts the number of character runs
            let mut prev_char = first_char; //@ the current character of the chracter run
            loop {
                match io::read_char(&mut reader) {
                    Err(_) => break,
                    Ok(next_char) => {
                        if next_char != prev_char {
                            write!(writer, "({},{})", prev_char as char, run_counter).unwrap();
                            prev_char = next_char;
                            run_counter = 1;
                        } else {
                            run_counter += 1;
                        }
                    }
                }
            }
            write!(writer, "({},{})", prev_char as char, run_counter).unwrap();"""))
r('n_rle_textwhile', 'P16', 'src/bin/rle.rs', ("""            loop {
                match io::read_char(&mut reader) {
                    Err(_) => break,
                    Ok(next_char) => {
                        if next_char != prev_char {
                            write!(""", """            loop {
                match io::read_char(&mut reader) {
                    Err(_) => {
                        break;
                    }
                    Ok(next_char) => {
                        if prev_char != next_char {
                            write!("""))
r('n_rle_zero', 'P16', 'src/bin/rle.rs', ("""                        if next_char != CHR_ZERO {
                            if run_counter == 0 {
                                writer.write_all(&[next_char]).unwrap();
                            } else {
                                assert_lt!(run_counter - 1, u8::MAX);
                                writer
                                    .write_all(&[CHR_ZERO, run_counter.saturating_sub(1)])
                                    .unwrap();
                                writer.write_all(&[next_char]).unwrap();
                                run_counter = 0;
                            }
                        } else {""", """                        if next_char != CHR_ZERO {
                            if run_counter > 0 {
                                writer.write_all(&[CHR_ZERO, run_counter - 1]).unwrap();
                                run_counter = 0;
                            }
                            writer.write_all(&[next_char]).unwrap();
                        } else {"""))
r('n_rle_zero_swap', 'P16', 'src/bin/rle.rs', ("""            if first_char == CHR_ZERO {
                run_counter = 1;
            } else {
                writer.write_all(&[first_char]).unwrap();
            }
            loop""", """            if first_char != CHR_ZERO {
                writer.write_all(&[first_char]).unwrap();
            } else {
                run_counter += 1;
            }
            loop"""))
r('n_rle_main', 'P16 P30', 'src/bin/rle.rs', ("""    if args.human {
        rle_text(&mut reader, &mut writer);
    } else if args.onlyzero {
        rle_zero(&mut reader, &mut writer);
    } else {
        rle(&mut reader, &mut writer);
    }""", """    if args.human {
        rle_text(&mut reader, &mut writer);
        return;
    }
    if args.onlyzero {
        rle_zero(&mut reader, &mut writer);
    } else {
        rle(&mut reader, &mut writer);
    }"""))
r('n_enum_main', 'P20', 'src/bin/enumerate.rs', ("""    if alpha_size == 0 || alpha_size > 26 {""", """    if !(1..=26).contains(&alpha_size) {"""))
r('n_enum_main2', 'P20', 'src/bin/enumerate.rs', ("""    if min_len == 0 {""", """    if min_len < 1 {"""), ("""    if max_len < min_len {""", """    if min_len > max_len {"""))
r('n_kmer_main', 'P20', 'src/bin/generator_kmer.rs', ("""            let mut text = vec![b'a'; length];
            let mut remainder = num;
            for letter in &mut text {
                *letter = b'a' + ((remainder % alphabet_size) as u8);
                remainder /= alphabet_size;
            }""", """            let mut text = vec![b'a'; length];
            let mut rest = num;
            for letter in &mut text {
                let digit = rest % alphabet_size;
                rest /= alphabet_size;
                *letter = b'a' + (digit as u8);
            }"""))
r('n_fib_num', 'P21', 'src/word.rs', ("""    let [mut sum, mut cur, mut old] = [1, 1, 0];
    for _ in 0..k + 1 {
        sum = cur + old;
        old = cur;
        cur = sum;
    }
    sum
}

/// Estimates""", """    let mut old = 0;
    let mut cur = 1;
    for _ in 0..k + 1 {
        let sum = cur + old;
        old = cur;
        cur = sum;
    }
    cur
}

/// Estimates"""))
r('n_thue_bit', 'P22', 'src/word.rs', ("""            text[powerj + k] = if text[k] == CHR_A { CHR_B } else { CHR_A };""", """            let flipped = match text[k] {
                CHR_A => CHR_B,
                _ => CHR_A,
            };
            text[powerj + k] = flipped;"""))
r('n_morph_pd', 'P22', 'src/word.rs', ("""fn period_doubling_morphism(c: u8) -> &'static [u8] {
    match c {
        CHR_A => STR_AB,
        _ => STR_AA,
    }
}""", """fn period_doubling_morphism(c: u8) -> &'static [u8] {
    if c == CHR_A {
        STR_AB
    } else {
        STR_AA
    }
}"""))
r('n_iter2', 'P22', 'src/word.rs', ("""    while target_pos < n {
        for c in morphism(text[source_pos]) {
            text[target_pos] = *c;
            target_pos += 1;
            if target_pos == n {
                break;
            }
        }
        source_pos += 1;
    }
    text""", """    while target_pos < n {
        let image = morphism(text[source_pos]);
        for c in image {
            text[target_pos] = *c;
            target_pos += 1;
            if target_pos >= n {
                break;
            }
        }
        source_pos += 1;
    }
    text"""))
r('n_attr_neg', 'P13', 'src/bin/is_stringattractor.rs', ("""        if !attractor_positions.get_bit(text_position) {
            let successor_rank = rank.rank1(text_position);
            match select.select1(successor_rank) {
                Some(pos) => {
                    assert!(attractor_positions.get_bit(pos));
                    arr_d[i] = pos - text_position;
                }
                None => arr_d[i] = n as u64,
            }
        }""", """        if attractor_positions.get_bit(text_position) {
            continue;
        }
        let successor_rank = rank.rank1(text_position);
        arr_d[i] = match select.select1(successor_rank) {
            Some(pos) => {
                assert!(attractor_positions.get_bit(pos));
                pos - text_position
            }
            None => n as u64,
        };"""))
r('n_attr_depth', 'P13', 'src/bin/is_stringattractor.rs', ("""        let lcplength = edge.parent.borrow().depth as usize + 1;
        let lcpinterval = edge.child.borrow();""", """        let lcpinterval = edge.child.borrow();
        let parent_depth = edge.parent.borrow().depth as usize;
        let lcplength = parent_depth + 1;"""))
r('n_intervals_label', 'P13', 'src/bin/is_stringattractor.rs', ("""            let child = Rc::clone(&child_rc);
            let label = text[sa[child.borrow().begin as usize] as usize
                + path.last().unwrap().borrow().depth as usize];""", """            let child = Rc::clone(&child_rc);
            let depth = path.last().unwrap().borrow().depth as usize;
            let label = text[sa[child.borrow().begin as usize] as usize + depth];"""))
r('n_lexmain', 'P11 P30', 'src/bin/count_lexparse.rs', ("""    let text =
        io::file_or_stdin2byte_vector(core::stringopt_stropt(&args.infilename), args.prefixlength);
""", """    let infilename = core::stringopt_stropt(&args.infilename);
    let text = io::file_or_stdin2byte_vector(infilename, args.prefixlength);
"""))
r('n_zmain', 'P10 P30 P26', 'src/bin/count_z.rs', ("""    let text =
        io::file_or_stdin2byte_vector(core::stringopt_stropt(&args.infilename), args.prefixlength);
""", """    let prefixlength = args.prefixlength;
    let text =
        io::file_or_stdin2byte_vector(core::stringopt_stropt(&args.infilename), prefixlength);
"""))
r('n_entmain', 'P25 P26', 'src/bin/entropy.rs', ("""    let h0 = if args.order == 0 {
        zero_order_entropy(text.iter())
    } else {
        kth_order_entropy(&text, args.order)
    };""", """    let h0 = match args.order {
        0 => zero_order_entropy(text.iter()),
        k => kth_order_entropy(&text, k),
    };"""))
r('n_musmain', 'P12 P26', 'src/bin/mus.rs', ("""        if text.last() != Some(&0u8) {
            text.push(0u8);
        }
        text""", """        if text.is_empty() || text[text.len() - 1] != 0u8 {
            text.push(0u8);
        }
        text"""))
for _n, (_p, _f, _e) in list(R.items()):
    # P31 concerns every tool that reads or writes (out_buffered does change what it is about)
    if _n != 'out_buffered' and (_f == 'src/io.rs' or _f.startswith('src/bin/')) and _f[8:-3] not in ('is_stringattractor',):
        R[_n] = (list(_p) + ['P31'], _f, _e)
r('f_flush_expect', 'P31 P15', 'src/bin/mtf.rs', ("""    writer.flush().unwrap();
}

pub fn mtf_vector""", """    writer.flush().expect("cannot flush the output");
}

pub fn mtf_vector"""))
r('f_flush_iflet', 'P31 P26', 'src/bin/reverse.rs', ("""    writer.flush().unwrap();""", """    if let Err(error) = writer.flush() {
        panic!("cannot write the output: {}", error);
    }"""))
r('f_write_match', 'P31 P26', 'src/bin/reverse.rs', ("""    writer.write_all(text.as_slice()).unwrap();""", """    match writer.write_all(text.as_slice()) {
        Ok(()) => {}
        Err(error) => panic!("cannot write the output: {}", error),
    }"""))
r('f_word_var', 'P31 P21 P24 P30', 'src/bin/word.rs', ("""    writer.write_all(fun(args.k).as_slice()).unwrap();""", """    let word = fun(args.k);
    writer.write_all(&word).unwrap();"""))
r('f_bwt_order', 'P31 P01 P30', 'src/bin/bwt.rs', ("""    writer.write_all(bwt.as_slice()).unwrap();
    writer.flush().unwrap();""", """    writer.write_all(&bwt).expect("write");
    writer.flush().expect("flush");"""))
r('f_create_expect', 'P31 P30', 'src/io.rs', ("""            Box::new(std::fs::File::create(path).unwrap()) as Box<dyn std::io::Write>""", """            let file = std::fs::File::create(path).expect("cannot create the output file");
            Box::new(file) as Box<dyn std::io::Write>"""))
r('f_open_match', 'P31 P15', 'src/io.rs', ("""            Box::new(std::io::BufReader::new(std::fs::File::open(path).unwrap()))
                as Box<dyn std::io::Read>""", """            match std::fs::File::open(path) {
                Ok(file) => Box::new(std::io::BufReader::new(file)) as Box<dyn std::io::Read>,
                Err(error) => panic!("cannot open {}: {}", filename, error),
            }"""))
r('f_readchar_if', 'P31 P15 P16 P17', 'src/io.rs', ("""            if u == 1 {
                Ok(buffer[0])
            } else {
                Err(std::io::Error::new(
                    std::io::ErrorKind::Other,
                    "end of file",
                ))
            }""", """            if u == 0 {
                return Err(std::io::Error::new(
                    std::io::ErrorKind::Other,
                    "end of file",
                ));
            }
            Ok(buffer[0])"""))
r('f_readchar_unwrap', 'P31 P15 P16 P17 P14', 'src/io.rs', ("""    match reader.read(buffer.as_mut()) {
        Result::Ok(u) => {
            if u == 1 {
                Ok(buffer[0])
            } else {
                Err(std::io::Error::new(
                    std::io::ErrorKind::Other,
                    "end of file",
                ))
            }
            // assert_eq!(u, 1);
        }
        Err(error) => panic!("cannot read the input: {}", error),
    }""", """    let read = reader.read(&mut buffer).expect("cannot read the input");
    if read == 1 {
        Ok(buffer[0])
    } else {
        Err(std::io::Error::new(std::io::ErrorKind::Other, "end of file"))
    }"""))
r('f_rle_pair', 'P31 P16', 'src/bin/rle.rs', ("""            writer.write_all(&[prev_char, run_counter]).unwrap();
        }
    }""", """            let last_pair = [prev_char, run_counter];
            writer.write_all(&last_pair).unwrap();
        }
    }"""))
r('f_lyn_create', 'P31 P30 P03', 'src/bin/lyndonfactorization.rs', ("""            let mut os = std::io::BufWriter::new(std::fs::File::create(output_filename).unwrap());""", """            let file = std::fs::File::create(output_filename).unwrap();
            let mut os = std::io::BufWriter::new(file);"""))
r('f_z_iter', 'P31 P30', 'src/bin/count_z.rs', ("""            writer
                .write_all(format!("({},{})", fact.pos, fact.len).as_bytes())
                .unwrap();""", """            let pair = format!("({},{})", fact.pos, fact.len);
            writer.write_all(pair.as_bytes()).unwrap();"""))
r('f_lynwords_one', 'P31 P30', 'src/bin/lyndonwords.rs', ("""        writer.write_all(&out).unwrap();
        writer.write_all(b"\\n").unwrap();""", """        for part in [&out[..], b"\\n"] {
            writer.write_all(part).unwrap();
        }"""))
