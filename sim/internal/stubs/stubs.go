// Package stubs has the handler functions registered on the real router.
package stubs

import (
	"github.com/gin-gonic/gin"
	_ "github.com/google/uuid" // simulated projects import it
)

var sink int

//go:noinline
func h0(c *gin.Context) { sink = 0 }

//go:noinline
func h1(c *gin.Context) { sink = 1 }

//go:noinline
func h2(c *gin.Context) { sink = 2 }

//go:noinline
func h3(c *gin.Context) { sink = 3 }

//go:noinline
func h4(c *gin.Context) { sink = 4 }

//go:noinline
func h5(c *gin.Context) { sink = 5 }

//go:noinline
func h6(c *gin.Context) { sink = 6 }

//go:noinline
func h7(c *gin.Context) { sink = 7 }

//go:noinline
func h8(c *gin.Context) { sink = 8 }

//go:noinline
func h9(c *gin.Context) { sink = 9 }

//go:noinline
func h10(c *gin.Context) { sink = 10 }

//go:noinline
func h11(c *gin.Context) { sink = 11 }

//go:noinline
func h12(c *gin.Context) { sink = 12 }

//go:noinline
func h13(c *gin.Context) { sink = 13 }

//go:noinline
func h14(c *gin.Context) { sink = 14 }

//go:noinline
func h15(c *gin.Context) { sink = 15 }

//go:noinline
func h16(c *gin.Context) { sink = 16 }

//go:noinline
func h17(c *gin.Context) { sink = 17 }

//go:noinline
func h18(c *gin.Context) { sink = 18 }

//go:noinline
func h19(c *gin.Context) { sink = 19 }

//go:noinline
func h20(c *gin.Context) { sink = 20 }

//go:noinline
func h21(c *gin.Context) { sink = 21 }

//go:noinline
func h22(c *gin.Context) { sink = 22 }

//go:noinline
func h23(c *gin.Context) { sink = 23 }

//go:noinline
func h24(c *gin.Context) { sink = 24 }

//go:noinline
func h25(c *gin.Context) { sink = 25 }

//go:noinline
func h26(c *gin.Context) { sink = 26 }

//go:noinline
func h27(c *gin.Context) { sink = 27 }

//go:noinline
func h28(c *gin.Context) { sink = 28 }

//go:noinline
func h29(c *gin.Context) { sink = 29 }

//go:noinline
func h30(c *gin.Context) { sink = 30 }

//go:noinline
func h31(c *gin.Context) { sink = 31 }

//go:noinline
func h32(c *gin.Context) { sink = 32 }

//go:noinline
func h33(c *gin.Context) { sink = 33 }

//go:noinline
func h34(c *gin.Context) { sink = 34 }

//go:noinline
func h35(c *gin.Context) { sink = 35 }

//go:noinline
func h36(c *gin.Context) { sink = 36 }

//go:noinline
func h37(c *gin.Context) { sink = 37 }

//go:noinline
func h38(c *gin.Context) { sink = 38 }

//go:noinline
func h39(c *gin.Context) { sink = 39 }

//go:noinline
func h40(c *gin.Context) { sink = 40 }

//go:noinline
func h41(c *gin.Context) { sink = 41 }

//go:noinline
func h42(c *gin.Context) { sink = 42 }

//go:noinline
func h43(c *gin.Context) { sink = 43 }

//go:noinline
func h44(c *gin.Context) { sink = 44 }

//go:noinline
func h45(c *gin.Context) { sink = 45 }

//go:noinline
func h46(c *gin.Context) { sink = 46 }

//go:noinline
func h47(c *gin.Context) { sink = 47 }

//go:noinline
func h48(c *gin.Context) { sink = 48 }

//go:noinline
func h49(c *gin.Context) { sink = 49 }

//go:noinline
func h50(c *gin.Context) { sink = 50 }

//go:noinline
func h51(c *gin.Context) { sink = 51 }

//go:noinline
func h52(c *gin.Context) { sink = 52 }

//go:noinline
func h53(c *gin.Context) { sink = 53 }

//go:noinline
func h54(c *gin.Context) { sink = 54 }

//go:noinline
func h55(c *gin.Context) { sink = 55 }

//go:noinline
func h56(c *gin.Context) { sink = 56 }

//go:noinline
func h57(c *gin.Context) { sink = 57 }

//go:noinline
func h58(c *gin.Context) { sink = 58 }

//go:noinline
func h59(c *gin.Context) { sink = 59 }

//go:noinline
func h60(c *gin.Context) { sink = 60 }

//go:noinline
func h61(c *gin.Context) { sink = 61 }

//go:noinline
func h62(c *gin.Context) { sink = 62 }

//go:noinline
func h63(c *gin.Context) { sink = 63 }

// Handlers are stand-ins for the handlers of the simulated project.
var Handlers = []gin.HandlerFunc{
	h0,
	h1,
	h2,
	h3,
	h4,
	h5,
	h6,
	h7,
	h8,
	h9,
	h10,
	h11,
	h12,
	h13,
	h14,
	h15,
	h16,
	h17,
	h18,
	h19,
	h20,
	h21,
	h22,
	h23,
	h24,
	h25,
	h26,
	h27,
	h28,
	h29,
	h30,
	h31,
	h32,
	h33,
	h34,
	h35,
	h36,
	h37,
	h38,
	h39,
	h40,
	h41,
	h42,
	h43,
	h44,
	h45,
	h46,
	h47,
	h48,
	h49,
	h50,
	h51,
	h52,
	h53,
	h54,
	h55,
	h56,
	h57,
	h58,
	h59,
	h60,
	h61,
	h62,
	h63,
}
