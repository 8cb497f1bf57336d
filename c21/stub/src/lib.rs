pub use redstone_ml;
