// Operation codes of the recorded interface. This file is the single source of the codes:
// the drivers and the orchestrator read it.
module ops {
  // scenario control
  pure val OP_RESET: int = 1        // I: [lane variables]; forgets everything
  pure val OP_FORGET: int = 2       // I: [reg]
  pure val OP_BIND: int = 3         // I: [_, dst, a]: another name for the same object (Python)
  pure val OP_COPY: int = 4         // I: [spelling, dst, a]: copy construction/assignment, copy, deepcopy, pickle, move of a copy
  // construction
  pure val OP_ZERO: int = 10        // I: [spelling, dst, size given (or ABSENT)], type in I[3..6]
  pure val OP_EMPTY: int = 11
  pure val OP_CONST: int = 12       // D: [f]
  pure val OP_VAR: int = 13         // I: [.., i]  D: [f]
  pure val OP_VARS: int = 14        // dst.. consecutive, D: values
  pure val OP_DATA: int = 15        // D: data
  pure val OP_GRAD: int = 16        // D: f, g          (first order)
  pure val OP_ARRS: int = 17        // I: .., len g, rows, cols; D: f, g, hm row by row
  pure val OP_DEFAULT: int = 18     // default constructor of a dynamic number (and zero() without size)
  pure val OP_MODVARS: int = 19     // module-level factory: I: [_, dst, order]; D: values
  pure val OP_SCONST: int = 20      // sparse constant      D: [f]
  pure val OP_SVAR: int = 21        // sparse variable      I: [_, dst, name]  D: [f]
  pure val OP_SDATA: int = 22       // sparse from value and map  I: [_, dst, names...]  D: f, d...
  // reading
  pure val OP_VIEWS: int = 30       // every read view of a dense number
  pure val OP_INFO: int = 31        // order, dynamic?, size, data length, static size as reported by the object
  pure val OP_TEXT: int = 32
  pure val OP_EVAL: int = 33        // I: [_, a, (names)]; D: increment
  pure val OP_SGET: int = 34        // sparse: size and d(name) for every name, present or not
  pure val OP_CMP: int = 35         // I: [_, a, b]: six comparisons of two numbers
  pure val OP_CMPC: int = 36        // I: [_, a] D: [c]: six comparisons number ~ c then six c ~ number
  pure val OP_SIZEOF: int = 37      // I: [_, order, n]: size_from_data_length / data_length_from_size
  // writing
  pure val OP_SETF: int = 40        // I: [spelling, a]      D: [x]
  pure val OP_SETG: int = 41        // I: [spelling, a, i]   D: [x]
  pure val OP_SETH: int = 42        // I: [spelling, a, k]   D: [x]  linear index
  pure val OP_SETHIJ: int = 43      // I: [spelling, a, i, j]D: [x]
  pure val OP_SETHM: int = 44       // I: [spelling, a, rows, cols] D: entries
  pure val OP_SETDATA: int = 45     // I: [spelling, a, k]   D: [x]  entry k of the flat data
  pure val OP_SETALL: int = 46      // I: [spelling, a, len] D: all data
  pure val OP_SETZERO: int = 47     // I: [_, a]
  pure val OP_RESIZE: int = 48      // I: [_, a, size]
  pure val OP_HOLD: int = 49        // I: [which, v, a]: keep an array view (0 data, 1 g) of a as v
  pure val OP_HOLDSET: int = 50     // I: [_, v, k]  D: [x]: write through a kept view
  pure val OP_HM: int = 51          // I: [_, a, mode]: hm in a mode given by number (0 full, 1 zeros, >= 2 invalid); optionally the shape of a given buffer
  pure val OP_PADL: int = 52        // I: [_, dst, a, size]
  pure val OP_PADR: int = 53
  // arithmetic: I: [spelling, dst, a, b]
  pure val OP_ADD: int = 60
  pure val OP_SUB: int = 61
  pure val OP_MUL: int = 62
  pure val OP_DIV: int = 63
  pure val OP_ADDC: int = 64        // a + c   D: [c]
  pure val OP_SUBC: int = 65
  pure val OP_MULC: int = 66
  pure val OP_DIVC: int = 67
  pure val OP_CADD: int = 68        // c + a
  pure val OP_CSUB: int = 69
  pure val OP_CMUL: int = 70
  pure val OP_CDIV: int = 71
  pure val OP_NEG: int = 72
  pure val OP_ABS: int = 73
  // in place: I: [spelling, a, b]
  pure val OP_IADD: int = 80
  pure val OP_ISUB: int = 81
  pure val OP_IMUL: int = 82
  pure val OP_IDIV: int = 83
  pure val OP_IADDC: int = 84       // I: [spelling, a]  D: [c]
  pure val OP_ISUBC: int = 85
  pure val OP_IMULC: int = 86
  pure val OP_IDIVC: int = 87
  pure val OP_IADDE: int = 88       // I: [spelling, a, b, entry]: by the plain number stored as an entry of b's data, passed by reference
  pure val OP_ISUBE: int = 89
  pure val OP_IMULE: int = 90
  pure val OP_IDIVE: int = 91
  // elementary functions: I: [spelling, dst, a]
  pure val OP_POW: int = 100        // D: [exponent]
  pure val OP_SQRT: int = 101
  pure val OP_CBRT: int = 102
  pure val OP_RECIP: int = 103
  pure val OP_COS: int = 104
  pure val OP_SIN: int = 105
  pure val OP_TAN: int = 106
  pure val OP_ACOS: int = 107
  pure val OP_ASIN: int = 108
  pure val OP_ATAN: int = 109
  pure val OP_COSH: int = 110
  pure val OP_SINH: int = 111
  pure val OP_TANH: int = 112
  pure val OP_ACOSH: int = 113
  pure val OP_ASINH: int = 114
  pure val OP_ATANH: int = 115
  pure val OP_EXP: int = 116
  pure val OP_LOG: int = 117
  pure val OP_LOGB: int = 118       // D: [base]
  pure val OP_LOG2: int = 119
  pure val OP_LOG10: int = 120
  // two and three operands: I: [spelling, dst, a, b(, c)]
  pure val OP_ATAN2: int = 130
  pure val OP_HYPOT: int = 131
  pure val OP_HYPOT3: int = 132
  // arrays; an operand reference >= 1000 is the plain number D[ref - 1000]
  pure val OP_AMAP: int = 140       // I: [spelling, function, count, dst..., a...]  D: [c]: elementwise one-argument function
  pure val OP_AZIP: int = 141       // I: [spelling, operation, count, dst..., a..., b...]: elementwise two-argument operation
  pure val OP_AMATMUL: int = 142    // I: [spelling, m, k, n, dst(m*n)..., a(m*k)..., b(k*n)...]
  pure val OP_ASUM: int = 143       // I: [spelling, count, dst, a...]
  pure val OP_ACROSS: int = 144     // I: [spelling, dst(3), a(3), b(3)]
  pure val OP_ANORM: int = 145      // I: [spelling, count, dst, a...]
  pure val OP_MODF: int = 146       // I: [_, dims, shape..., refs...]
  pure val OP_MODD: int = 147
  pure val OP_MODDD: int = 148
  pure val OP_ACMP: int = 149       // I: [spelling, count, a..., b...]: elementwise six comparisons
  pure val OP_APROD: int = 150      // I: [spelling, count, dst, a...]
  pure val OP_ADET: int = 151       // I: [spelling, k, dst, a(k*k)...]  determinant, k = 2 or 3
  // end of a program: the derivatives of a must be those of the composed program
  pure val OP_END: int = 160        // I: [_, a]

  pure val ABSENT: int = -99
}
