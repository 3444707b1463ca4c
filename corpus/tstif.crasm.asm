;;; Author: Leon Bottou
;;; Public Domain.

	* equ $2000

	dw end1-4*2
end2	dw (end1-4)*2
end1	dw $ad
	
	if 1<2
	  if 1>2
	    dl 3000
	  else
	    dw 4000
	  endc
	  dw 1000
	else
	  if 1<>1
	    dw 6000/2
	  endc
	  dw 2000
	endc

	clist off
	
	if 1>2
	  dw 3000
	else
	  dw 4000
	endc
	
	if 1<=1
	  dw 5000
	  if 1>2
  	    dw 3000
	  else
	    dw 4000
	  endc
	endc
	
	
