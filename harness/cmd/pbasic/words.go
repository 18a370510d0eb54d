package main

// The keywords of Applesoft, for the token bytes 80 to EA, as `LIST` names them
// and the repository spells them.
var applesoftWords = []string{
	`END`, `FOR`, `NEXT`, `DATA`, `INPUT`, `DEL`, `DIM`, `READ`, `GR`, `TEXT`, `PR #`, `IN #`, `CALL`, `PLOT`,
	`HLIN`, `VLIN`, `HGR2`, `HGR`, `HCOLOR=`, `HPLOT`, `DRAW`, `XDRAW`, `HTAB`, `HOME`, `ROT=`, `SCALE=`,
	`SHLOAD`, `TRACE`, `NOTRACE`, `NORMAL`, `INVERSE`, `FLASH`, `COLOR=`, `POP`, `VTAB`, `HIMEM:`, `LOMEM:`,
	`ONERR`, `RESUME`, `RECALL`, `STORE`, `SPEED=`, `LET`, `GOTO`, `RUN`, `IF`, `RESTORE`, `&`, `GOSUB`,
	`RETURN`, `REM`, `STOP`, `ON`, `WAIT`, `LOAD`, `SAVE`, `DEF FN`, `POKE`, `PRINT`, `CONT`, `LIST`, `CLEAR`,
	`GET`, `NEW`, `TAB`, `TO`, `FN`, `SPC(`, `THEN`, `AT`, `NOT`, `STEP`, `+`, `-`, `*`, `/`, `;`, `AND`, `OR`,
	`>`, `=`, `<`, `SGN`, `INT`, `ABS`, `USR`, `FRE`, `SCRN (`, `PDL`, `POS`, `SQR`, `RND`, `LOG`, `EXP`, `COS`,
	`SIN`, `TAN`, `ATN`, `PEEK`, `LEN`, `STR$`, `VAL`, `ASC`, `CHR$`, `LEFT$`, `RIGHT$`, `MID$`,
}

// The keywords of Integer BASIC, for the token bytes 00 to 7F.
var integerWords = []string{
	`HIMEM:`, `<token-01>`, `_`, `:`, `LOAD`, `SAVE`, `CON`, `RUN`, `RUN`, `DEL`, `,`, `NEW`, `CLR`, `AUTO`,
	`,`, `MAN`, `HIMEM:`, `LOMEM:`, `+`, `-`, `*`, `/`, `=`, `#`, `>=`, `>`, `<=`, `<>`, `<`, `AND`, `OR`,
	`MOD`, `^`, `+`, `(`, `,`, `THEN`, `THEN`, `,`, `,`, `"`, `"`, `(`, `!`, `!`, `(`, `PEEK`, `RND`, `SGN`,
	`ABS`, `PDL`, `RNDX`, `(`, `+`, `-`, `NOT`, `(`, `=`, `#`, `LEN(`, `ASC(`, `SCRN(`, `,`, `(`, `$`, `$`, `(`,
	`,`, `,`, `;`, `;`, `;`, `,`, `,`, `,`, `TEXT`, `GR`, `CALL`, `DIM`, `DIM`, `TAB`, `END`, `INPUT`, `INPUT`,
	`INPUT`, `FOR`, `=`, `TO`, `STEP`, `NEXT`, `,`, `RETURN`, `GOSUB`, `REM`, `LET`, `GOTO`, `IF`, `PRINT`,
	`PRINT`, `PRINT`, `POKE`, `,`, `COLOR=`, `PLOT`, `,`, `HLIN`, `,`, `AT`, `VLIN`, `,`, `AT`, `VTAB`, `=`,
	`=`, `)`, `)`, `LIST`, `,`, `LIST`, `POP`, `NODSP`, `DSP`, `NOTRACE`, `DSP`, `DSP`, `TRACE`, `PR#`, `IN#`,
}
