#![allow(dead_code, unused_imports)]
use std::io::Cursor;

use parquet2::compression::CompressionOptions;
use parquet2::encoding::Encoding;
use parquet2::error::{Error, Result};
use parquet2::metadata::{Descriptor, SchemaDescriptor};
use parquet2::page::{DataPage, DataPageHeader, DataPageHeaderV1, DataPageHeaderV2, DictPage, Page};
use parquet2::schema::types::{ParquetType, PhysicalType};
use parquet2::schema::Repetition;
use parquet2::statistics::ParquetStatistics;
use parquet2::write::{Compressor, DynIter, DynStreamingIterator, FileStreamer, FileWriter, Version, WriteOptions};

/// A leaf of the given type and repetition.
fn leaf(name: &str, type_: PhysicalType, repetition: Repetition) -> ParquetType {
    ParquetType::try_from_primitive(name.to_string(), type_, repetition, None, None, None).unwrap()
}

fn group(name: &str, repetition: Repetition, fields: Vec<ParquetType>) -> ParquetType {
    ParquetType::from_converted(name.to_string(), fields, repetition, None, None)
}

fn schema(fields: Vec<ParquetType>) -> SchemaDescriptor {
    SchemaDescriptor::new("schema".to_string(), fields)
}

fn v1(d: &Descriptor, encoding: Encoding, values: usize, rows: usize, buffer: Vec<u8>, statistics: Option<ParquetStatistics>) -> Page {
    let header = DataPageHeader::V1(DataPageHeaderV1 {
        num_values: values as i32,
        encoding: encoding.into(),
        definition_level_encoding: Encoding::Rle.into(),
        repetition_level_encoding: Encoding::Rle.into(),
        statistics,
    });
    Page::Data(DataPage::new(header, buffer, d.clone(), Some(rows)))
}

#[allow(clippy::too_many_arguments)]
fn v2(d: &Descriptor, encoding: Encoding, values: usize, nulls: usize, rows: usize, rep: &[u8], def: &[u8], data: &[u8], is_compressed: Option<bool>) -> Page {
    let header = DataPageHeader::V2(DataPageHeaderV2 {
        num_values: values as i32,
        num_nulls: nulls as i32,
        num_rows: rows as i32,
        encoding: encoding.into(),
        definition_levels_byte_length: def.len() as i32,
        repetition_levels_byte_length: rep.len() as i32,
        is_compressed,
        statistics: None,
    });
    let buffer = [rep, def, data].concat();
    Page::Data(DataPage::new(header, buffer, d.clone(), Some(rows)))
}

/// Bit-packed levels of one bit each.
fn levels(bits: &[bool]) -> Vec<u8> {
    let mut out = vec![];
    parquet2::encoding::hybrid_rle::encode_bool(&mut out, bits.iter().copied()).unwrap();
    out
}

/// The levels preceded by their length, as V1 pages have them.
fn sized(levels: Vec<u8>) -> Vec<u8> {
    let mut out = (levels.len() as u32).to_le_bytes().to_vec();
    out.extend(levels);
    out
}

fn int32s(values: impl IntoIterator<Item = i32>) -> Vec<u8> {
    values.into_iter().flat_map(|x| x.to_le_bytes()).collect()
}

fn copy(page: &Page) -> Page {
    match page {
        Page::Data(x) => Page::Data(x.clone()),
        Page::Dict(x) => Page::Dict(DictPage::new(x.buffer.clone(), x.num_values, x.is_sorted)),
    }
}

type Chunks = Vec<Vec<Page>>;

fn chunks(columns: &Chunks, compression: CompressionOptions) -> DynIter<'static, Result<DynStreamingIterator<'static, parquet2::page::CompressedPage, Error>>> {
    let columns = columns
        .iter()
        .map(|pages| {
            let pages = pages.iter().map(copy).map(Ok).collect::<Vec<Result<Page>>>();
            Ok(DynStreamingIterator::new(Compressor::new_from_vec(DynIter::new(pages.into_iter()), compression, vec![])))
        })
        .collect::<Vec<_>>();
    DynIter::new(columns.into_iter())
}

fn options(statistics: bool) -> WriteOptions {
    WriteOptions { write_statistics: statistics, version: Version::V2 }
}

fn write(schema: &SchemaDescriptor, groups: &[Chunks], compression: CompressionOptions, statistics: bool) -> Result<Vec<u8>> {
    let mut writer = FileWriter::new(Cursor::new(vec![]), schema.clone(), options(statistics), None);
    for columns in groups {
        writer.write(chunks(columns, compression))?;
    }
    writer.end(None)?;
    Ok(writer.into_inner().into_inner())
}

fn write_async(schema: &SchemaDescriptor, groups: &[Chunks], compression: CompressionOptions, statistics: bool) -> Result<Vec<u8>> {
    futures::executor::block_on(async {
        let mut writer = FileStreamer::new(futures::io::Cursor::new(vec![]), schema.clone(), options(statistics), None);
        for columns in groups {
            writer.write(chunks(columns, compression)).await?;
        }
        writer.end(None).await?;
        Ok(writer.into_inner().into_inner())
    })
}

