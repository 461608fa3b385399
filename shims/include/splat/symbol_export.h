#pragma once
#define SYMBOL_EXPORT __attribute__((visibility("default")))
#define SYMBOL_IMPORT
