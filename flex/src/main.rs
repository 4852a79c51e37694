//! Compresses and decompresses on request with parquet2 built with other features than the harness.
//! request: [0 compress, 1 decompress][codec][level i32][len of output u64][len of input u64][output][input]
//! response: [0 ok, 1 error, 2 panic][len u64][output or message]
use parquet2::compression::*;
use std::io::{Read, Write};

static PLACE: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());

fn options(codec: u8, level: i32) -> CompressionOptions {
    // a negative level is the default one
    let l = if level < 0 { None } else { Some(level) };
    match codec {
        0 => CompressionOptions::Uncompressed,
        1 => CompressionOptions::Snappy,
        2 => CompressionOptions::Gzip(l.map(|x| GzipLevel::try_new(x as u8).unwrap())),
        3 => CompressionOptions::Lzo,
        4 => CompressionOptions::Brotli(l.map(|x| BrotliLevel::try_new(x as u32).unwrap())),
        5 => CompressionOptions::Lz4,
        6 => CompressionOptions::Zstd(l.map(|x| ZstdLevel::try_new(x).unwrap())),
        _ => CompressionOptions::Lz4Raw,
    }
}
fn main() {
    // a panic's message starts with the file and the crate it is in
    std::panic::set_hook(Box::new(|p| *PLACE.lock().unwrap() = p.location().map(|l| l.to_string()).unwrap_or_default()));
    let (mut i, mut o) = (std::io::stdin().lock(), std::io::stdout().lock());
    let mut head = [0; 22];
    while i.read_exact(&mut head).is_ok() {
        let level = i32::from_le_bytes(head[2..6].try_into().unwrap());
        let n = u64::from_le_bytes(head[6..14].try_into().unwrap()) as usize;
        let m = u64::from_le_bytes(head[14..22].try_into().unwrap()) as usize;
        let (mut output, mut input) = (vec![0; n], vec![0; m]);
        i.read_exact(&mut output).unwrap();
        i.read_exact(&mut input).unwrap();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            let options = options(head[1], level);
            if head[0] == 0 {
                compress(options, &input, &mut output)
            } else {
                decompress(options.into(), &input, &mut output)
            }
        }));
        let (status, bytes) = match r {
            Ok(Ok(())) => (0u8, output),
            Ok(Err(e)) => (1, format!("{e:?}").into_bytes()),
            Err(e) => (2, format!("{}: {}", PLACE.lock().unwrap(), e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or_default()).into_bytes()),
        };
        o.write_all(&[status]).unwrap();
        o.write_all(&(bytes.len() as u64).to_le_bytes()).unwrap();
        o.write_all(&bytes).unwrap();
        o.flush().unwrap();
    }
}
