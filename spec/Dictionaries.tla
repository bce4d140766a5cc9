----------------------------- MODULE Dictionaries ----------------------------
(***************************************************************************)
(* The name dictionaries and constants of the enumerated properties.  For  *)
(* property p, a reference R is a sequence of [value, short, long]: the    *)
(* ICU number, and the Unicode names as texts.                             *)
(***************************************************************************)
EXTENDS Texts, FiniteSets, TLC

Properties == {"Bidi_Class", "Block", "Decomposition_Type", "East_Asian_Width", "General_Category",
               "Grapheme_Cluster_Break", "Hangul_Syllable_Type", "Indic_Positional_Category",
               "Indic_Syllabic_Category", "Joining_Group", "Joining_Type", "Line_Break", "Numeric_Type",
               "Script", "Sentence_Break", "Vertical_Orientation", "Word_Break"}

(* How the dictionary of property p prints a short name.                   *)
Printed(p, short) == Joined(IF p = "Decomposition_Type" THEN Lower(short)
                            ELSE IF p \in {"Indic_Positional_Category", "Indic_Syllabic_Category"} THEN short
                            ELSE Spaced(short))

Prefix == [Bidi_Class |-> "U_", Block |-> "UBLOCK_", Decomposition_Type |-> "U_DT_", East_Asian_Width |-> "U_EA_",
           General_Category |-> "U_", Grapheme_Cluster_Break |-> "U_GCB_", Hangul_Syllable_Type |-> "U_HST_",
           Indic_Positional_Category |-> "U_INPC_", Indic_Syllabic_Category |-> "U_INSC_", Joining_Group |-> "U_JG_",
           Joining_Type |-> "U_JT_", Line_Break |-> "U_LB_", Numeric_Type |-> "U_NT_", Script |-> "USCRIPT_",
           Sentence_Break |-> "U_SB_", Vertical_Orientation |-> "U_VO_", Word_Break |-> "U_WB_"]

(* ICU's constant for the value of p with this long name, where it is made *)
(* from the name; U_PARAGRAPH_SEPARATOR is the general category's.         *)
Constant(p, long) == IF p = "Bidi_Class" /\ Joined(long) = "Paragraph_Separator" THEN "U_BLOCK_SEPARATOR"
                     ELSE Prefix[p] \o Joined(Upper(long))

(* The general categories in each mask.                                    *)
Group == [L |-> {"Lu", "Ll", "Lt", "Lm", "Lo"}, LC |-> {"Lu", "Ll", "Lt"}, M |-> {"Mn", "Me", "Mc"},
          N |-> {"Nd", "Nl", "No"}, Z |-> {"Zs", "Zl", "Zp"}, C |-> {"Cn", "Cc", "Cf", "Co", "Cs"},
          P |-> {"Pd", "Ps", "Pe", "Pc", "Po", "Pi", "Pf"}, S |-> {"Sm", "Sc", "Sk", "So"}]
=============================================================================
